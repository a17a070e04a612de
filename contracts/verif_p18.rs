//! The statements about imported documents (P18-P23), derived from the importer's contracts.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::verif_iter::*;
use crate::verif_import::*;
use crate::schema;
use crate::schema::layers::AnyLayer;
use crate::schema::animated_properties::keyframe::Keyframe;
use crate::schema::constants::matte_mode::MatteMode;
use crate::schema::shapes::AnyShape;
use crate::runtime::model;
use crate::runtime::model::*;
use peniko::{BlendMode, Mix, Compose};
verus! {
broadcast use {crate::verif_spec::group_ieee, crate::verif_import::group_import};

// ---- P18
/// `last_with` is the position of the last layer that carries the index; nothing exactly when none carries it
pub proof fn p18_last(es: Seq<Entry>, id: usize)
    requires es.len() <= usize::MAX
    ensures match last_with(es, id) {
        Some(j) => j < es.len() && es[j as int].1 == id && forall|m: int| j < m < es.len() ==> (#[trigger] es[m]).1 != id,
        None => forall|m: int| 0 <= m < es.len() ==> (#[trigger] es[m]).1 != id,
    }
    decreases es.len()
{
    if es.len() != 0 && es.last().1 != id {
        let t = es.drop_last();
        p18_last(t, id);
        assert forall|m: int| 0 <= m < t.len() implies #[trigger] es[m] == t[m] by {}
    }
}
/// `open_matte` is the nearest earlier matte source that no layer in between has consumed
pub proof fn p18_open(es: Seq<Entry>, n: int)
    requires 0 <= n <= es.len() <= usize::MAX
    ensures match open_matte(es, n) {
        Some(j) => j < n && es[j as int].0.is_mask && forall|m: int| j < m < n ==> !(#[trigger] es[m]).0.is_mask && es[m].2 is None,
        None => forall|j: int| 0 <= j < n && (#[trigger] es[j]).0.is_mask ==> exists|m: int| j < m < n && (#[trigger] es[m]).2 is Some,
    }
    decreases n
{
    if n > 0 {
        p18_open(es, n - 1);
        if open_matte(es, n) is None {
            assert forall|j: int| 0 <= j < n && (#[trigger] es[j]).0.is_mask implies exists|m: int| j < m < n && (#[trigger] es[m]).2 is Some by {
                if es[n - 1].2 is Some { assert(j < n - 1); } else { assert(j < n - 1 && open_matte(es, n - 1) is None); let m = choose|m: int| j < m < n - 1 && (#[trigger] es[m]).2 is Some; assert(es[m].2 is Some); }
            }
        }
    }
}
/// a document's layer by the index it carries
pub open spec fn carries(l: AnyLayer, k: usize) -> bool { k == match visual_of(l).layer.index { Some(i) => i, None => 0 } }
pub open spec fn is_source(l: AnyLayer) -> bool { flagged(visual_of(l)) && !hidden(l) }
/// every layer in order; parents by index, the last layer carrying it; none outside the list
pub proof fn p18_parents(r: Seq<model::Layer>, src: Seq<AnyLayer>, i: int)
    requires layers_are(r, src), 0 <= i < src.len() <= usize::MAX
    ensures r.len() == src.len(),
        match (r[i].parent, visual_of(src[i]).layer.parent_index) {
            (Some(j), Some(p)) => j < src.len() && carries(src[j as int], p) && forall|m: int| j < m < src.len() ==> !carries(#[trigger] src[m], p),
            (None, Some(p)) => forall|m: int| 0 <= m < src.len() ==> !carries(#[trigger] src[m], p),
            (None, None) => true,
            (Some(_), None) => false,
        }
{
    let es = choose|es: Seq<Entry>| #[trigger] layers_from(es, r, src);
    assert(r[i] == linked(es, i) && entry_is(es[i], src[i]));
    if let Some(p) = es[i].0.parent {
        p18_last(es, p);
        assert forall|m: int| 0 <= m < src.len() implies carries(#[trigger] src[m], p) == (es[m].1 == p) by { assert(entry_is(es[m], src[m])); }
    }
}
/// mattes: the explicit reference, or else the nearest unconsumed source before the layer, with the matte's blend mode
pub proof fn p18_mattes(r: Seq<model::Layer>, src: Seq<AnyLayer>, i: int)
    requires layers_are(r, src), 0 <= i < src.len() <= usize::MAX
    ensures match visual_of(src[i]).matte_mode {
            None => r[i].mask_layer is None,
            Some(mode) => match (r[i].mask_layer, visual_of(src[i]).matte_layer_index) {
                (Some((b, j)), Some(k)) => b == matte_of(mode) && j < src.len() && carries(src[j as int], c_usize(k)) && forall|m: int| j < m < src.len() ==> !carries(#[trigger] src[m], c_usize(k)),
                (None, Some(k)) => forall|m: int| 0 <= m < src.len() ==> !carries(#[trigger] src[m], c_usize(k)),
                (Some((b, j)), None) => b == matte_of(mode) && j < i && is_source(src[j as int]) && forall|m: int| j < m < i ==> !is_source(#[trigger] src[m]) && visual_of(src[m]).matte_mode is None,
                (None, None) => forall|j: int| 0 <= j < i && is_source(#[trigger] src[j]) ==> exists|m: int| j < m < i && visual_of(#[trigger] src[m]).matte_mode is Some,
            },
        }
{
    let es = choose|es: Seq<Entry>| #[trigger] layers_from(es, r, src);
    assert(r[i] == linked(es, i) && entry_is(es[i], src[i]));
    assert forall|m: int| 0 <= m < src.len() implies (#[trigger] es[m]).0.is_mask == is_source(src[m]) && (es[m].2 is Some) == (visual_of(src[m]).matte_mode is Some) by { assert(entry_is(es[m], src[m])); }
    match es[i].3 {
        Some(k) => { p18_last(es, k); assert forall|m: int| 0 <= m < src.len() implies carries(#[trigger] src[m], k) == (es[m].1 == k) by { assert(entry_is(es[m], src[m])); } }
        None => {
            p18_open(es, i);
            match open_matte(es, i) {
                Some(j) => { assert forall|m: int| j < m < i implies !is_source(#[trigger] src[m]) && visual_of(src[m]).matte_mode is None by { assert(!es[m].0.is_mask); } }
                None => {
                    assert forall|j: int| 0 <= j < i && is_source(#[trigger] src[j]) implies exists|m: int| j < m < i && visual_of(#[trigger] src[m]).matte_mode is Some by {
                        assert(es[j].0.is_mask);
                        let m = choose|m: int| j < m < i && (#[trigger] es[m]).2 is Some; assert(visual_of(src[m]).matte_mode is Some);
                    }
                }
            }
        }
    }
}

// ---- P19
/// attributes, layer by layer (references resolved, so that the list's layer has the base's attributes)
pub proof fn p19_layer(r: Seq<model::Layer>, src: Seq<AnyLayer>, i: int)
    requires layers_are(r, src), 0 <= i < src.len()
    ensures ({
        let (x, v) = (r[i], visual_of(src[i]));
        &&& x.name@ == (match v.layer.visual_object.name { Some(n) => n@, None => Seq::empty() })
        &&& x.frames.start == v.layer.in_point && x.frames.end == v.layer.out_point
        &&& x.stretch == (match v.layer.time_stretch { Some(s) => s, None => 1.0f64 })
        &&& !(src[i] is Precomposition) ==> x.start_frame == (match v.layer.start_time { Some(s) => s, None => 0.0f64 })
        &&& match src[i] { AnyLayer::Precomposition(p) => x.start_frame == p.start_time && x.width == p.width && x.height == p.height, _ => true }
        &&& xf_is(x.transform, v.transform) && scalar_or(x.opacity, v.transform.opacity, 100.0f64)
        &&& x.blend_mode == (match v.blend_mode { Some(m) => blend_of(m), None => None })
        &&& masks_are(x.masks@, or_empty(v.masks_properties))
        &&& x.is_mask == (flagged(v) && !hidden(src[i]))
        &&& content_is(x.content, src[i])
        &&& hidden(src[i]) ==> x.content is None && !x.is_mask
    })
{
    let es = choose|es: Seq<Entry>| #[trigger] layers_from(es, r, src);
    assert(r[i] == linked(es, i) && entry_is(es[i], src[i]));
}
/// every mask of the document that has a convertible path, in order, and nothing else
pub open spec fn some_count<T>(xs: Seq<Option<T>>, n: int) -> nat decreases n { if n <= 0 { 0 } else { some_count(xs, n - 1) + if xs[n - 1] is Some { 1nat } else { 0 } } }
pub proof fn lemma_flat_some<T>(xs: Seq<Option<T>>)
    ensures flat_all(xs).len() == some_count(xs, xs.len() as int),
        forall|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]) is Some ==> some_count(xs, i) < flat_all(xs).len() && flat_all(xs)[some_count(xs, i) as int] == xs[i]->Some_0
    decreases xs.len()
{
    if xs.len() != 0 {
        let t = xs.drop_last(); let n = t.len() as int;
        lemma_flat_some(t);
        lemma_count_prefix(xs, t, n);
        assert forall|i: int| 0 <= i < xs.len() && (#[trigger] xs[i]) is Some implies some_count(xs, i) < flat_all(xs).len() && flat_all(xs)[some_count(xs, i) as int] == xs[i]->Some_0 by {
            lemma_count_prefix(xs, t, i);
            if i < n { assert(t[i] == xs[i]); }
        }
    }
}
proof fn lemma_count_prefix<T>(a: Seq<Option<T>>, b: Seq<Option<T>>, n: int)
    requires 0 <= n <= b.len() <= a.len(), forall|i: int| 0 <= i < b.len() ==> a[i] == #[trigger] b[i]
    ensures some_count(a, n) == some_count(b, n)
    decreases n
{ if n > 0 { lemma_count_prefix(a, b, n - 1); assert(a[n - 1] == b[n - 1]); } }
pub proof fn p19_masks(r: Seq<model::Mask>, ms: Seq<schema::helpers::mask::Mask>)
    requires masks_are(r, ms)
    ensures exists|xs: Seq<Option<model::Mask>>| #[trigger] masks_from(xs, ms) && r.len() == some_count(xs, ms.len() as int)
        && forall|i: int| 0 <= i < ms.len() && (#[trigger] xs[i]) is Some ==> some_count(xs, i) < r.len() && mask_is(Some(r[some_count(xs, i) as int]), ms[i])
{
    let xs = choose|xs: Seq<Option<model::Mask>>| #[trigger] masks_from(xs, ms) && r == flat_all(xs);
    lemma_flat_some(xs);
    assert forall|i: int| 0 <= i < ms.len() && (#[trigger] xs[i]) is Some implies some_count(xs, i) < r.len() && mask_is(Some(r[some_count(xs, i) as int]), ms[i]) by { assert(mask_is(xs[i], ms[i])); }
}

// ---- P20
/// where the entries of keyframe `k` start
pub open spec fn offset_of(ks: Seq<&Keyframe>, k: int) -> nat decreases k { if k <= 0 { 0 } else { offset_of(ks, k - 1) + entries_of(ks[k - 1].base).len() } }
proof fn lemma_offset_prefix(a: Seq<&Keyframe>, b: Seq<&Keyframe>, n: int)
    requires 0 <= n <= b.len() <= a.len(), forall|i: int| 0 <= i < b.len() ==> a[i] == #[trigger] b[i]
    ensures offset_of(a, n) == offset_of(b, n)
    decreases n
{ if n > 0 { lemma_offset_prefix(a, b, n - 1); assert(a[n - 1] == b[n - 1]); } }
/// every keyframe has its entries, one after another and in order, all alike in time and hold and all from that
/// keyframe's value; handle j in as in, out as out
pub proof fn p20_entries(ks: Seq<&Keyframe>, k: int, j: int)
    requires 0 <= k < ks.len(), 0 <= j < entries_of(ks[k].base).len()
    ensures all_entries(ks).len() == offset_of(ks, ks.len() as int), sources(ks).len() == all_entries(ks).len(), entries_of(ks[k].base).len() >= 1,
        offset_of(ks, k) + j < all_entries(ks).len(),
        ({
            let e = all_entries(ks)[offset_of(ks, k) + j]; let b = ks[k].base;
            &&& e.frame == b.time && e.hold == hold_of(b)
            &&& sources(ks)[offset_of(ks, k) + j] == ks[k]
            &&& match e.in_tangent { Some(h) => h == handles_of(b.in_tangent)[j], None => pairs_of(b) == 0 }
            &&& match e.out_tangent { Some(h) => h == handles_of(b.out_tangent)[j], None => pairs_of(b) == 0 }
        })
    decreases ks.len()
{
    let t = ks.drop_last(); let n = t.len() as int;
    lemma_sources(t);
    lemma_len_entries(ks); lemma_len_entries(t);
    lemma_offset_prefix(ks, t, n);
    if k < n {
        assert(t[k] == ks[k]);
        p20_entries(t, k, j);
        lemma_offset_prefix(ks, t, k);
        lemma_offset_mono(ks, k, n);
    }
}
proof fn lemma_len_entries(ks: Seq<&Keyframe>)
    ensures all_entries(ks).len() == offset_of(ks, ks.len() as int)
    decreases ks.len()
{ if ks.len() != 0 { let t = ks.drop_last(); lemma_len_entries(t); lemma_offset_prefix(ks, t, t.len() as int); } }
proof fn lemma_offset_mono(ks: Seq<&Keyframe>, a: int, b: int)
    requires 0 <= a < b <= ks.len()
    ensures offset_of(ks, a) + entries_of(ks[a].base).len() <= offset_of(ks, b)
    decreases b
{ if a + 1 < b { lemma_offset_mono(ks, a, b - 1); } }
/// a keyframed property has as many times as values, and the value of each entry is its keyframe's, converted
pub proof fn p20_value<T: Tween>(v: Value<T>, ks: Seq<&Keyframe>, f: spec_fn(Seq<f64>) -> T, k: int, j: int)
    requires keyed(v, ks, f), 0 <= k < ks.len(), 0 <= j < entries_of(ks[k].base).len()
    ensures v->Animated_0.times@.len() == v->Animated_0.values@.len(), v->Animated_0.values@[offset_of(ks, k) + j] == f(ks[k].value@),
        v->Animated_0.times@[offset_of(ks, k) + j].frame == ks[k].base.time
{ p20_entries(ks, k, j); }

// ---- P21
/// one stop per colour stop present, offset and colour unchanged
pub proof fn p21_stops(r: Seq<[f64; 5]>, v: Seq<f64>, count: int, j: int, c: int)
    requires stops_is(r, v, count), 0 <= j < r.len(), 0 <= c < 4
    ensures r.len() == (if count <= v.len() as int / 4 { count } else { v.len() as int / 4 }), r[j]@[c] == v[4 * j + c]
{ assert(r[j]@[c] == stop_comp(v, count, j, c)); }
/// without an alpha track every stop is opaque
pub proof fn p21_opaque(r: Seq<[f64; 5]>, v: Seq<f64>, count: int, j: int)
    requires stops_is(r, v, count), 0 <= j < r.len(), alpha_track(v, count).len() < 2
    ensures r[j]@[4] == 1.0f64
{ assert(r[j]@[4] == stop_comp(v, count, j, 4)); }
proof fn lemma_min(a: f64, b: f64)
    requires !a.ieee_is_nan(), !b.ieee_is_nan()
    ensures f_min(a, b).ieee_le(a), f_min(a, b).ieee_le(b), f_min(a, b) == a || f_min(a, b) == b
{
    crate::verif_model::ax_min(a, b);
    assert(!a.ieee_is_nan() && !b.ieee_is_nan() ==> a.ieee_lt(b) || b.ieee_lt(a) || (a.ieee_le(b) && b.ieee_le(a))) by(bit_vector);
    assert(!a.ieee_is_nan() && !b.ieee_is_nan() ==> a.ieee_le(a) && b.ieee_le(b) && (a.ieee_lt(b) ==> a.ieee_le(b)) && (b.ieee_lt(a) ==> b.ieee_le(a))) by(bit_vector);
}
proof fn lemma_le3(a: f64, b: f64, c: f64)
    requires a.ieee_le(b), b.ieee_le(c)
    ensures a.ieee_le(c)
{ assert(a.ieee_le(b) && b.ieee_le(c) ==> a.ieee_le(c)) by(bit_vector); }
proof fn lemma_one() ensures 1.0f64.ieee_le(1.0f64), !1.0f64.ieee_is_nan() { assert(1.0f64.ieee_le(1.0f64) && !1.0f64.ieee_is_nan()) by(bit_vector); }
/// with one, a stop's alpha is one of those the pairs of neighbouring alpha stops give (or 1), and none of them is smaller
pub proof fn p21_alpha(track: Seq<(f64, f64)>, x: f64)
    requires forall|k: int| 0 <= k < track.len() - 1 ==> !(#[trigger] alpha_between(track[k], track[k + 1], x)).ieee_is_nan()
    ensures ({
        let a = alpha_at(track, x);
        &&& !a.ieee_is_nan() && a.ieee_le(1.0f64)
        &&& forall|k: int| 0 <= k < track.len() - 1 ==> a.ieee_le(#[trigger] alpha_between(track[k], track[k + 1], x))
        &&& a == 1.0f64 || exists|k: int| 0 <= k < track.len() - 1 && a == #[trigger] alpha_between(track[k], track[k + 1], x)
    })
    decreases track.len()
{
    if track.len() >= 2 {
        let t = track.drop_last(); let n = track.len() - 2;
        assert forall|k: int| 0 <= k < t.len() - 1 implies !(#[trigger] alpha_between(t[k], t[k + 1], x)).ieee_is_nan() by { assert(t[k] == track[k] && t[k + 1] == track[k + 1]); assert(!alpha_between(track[k], track[k + 1], x).ieee_is_nan()); }
        p21_alpha(t, x);
        let q = alpha_between(track[n], track[n + 1], x); let p = alpha_at(t, x);
        lemma_min(p, q);
        assert forall|k: int| 0 <= k < track.len() - 1 implies alpha_at(track, x).ieee_le(#[trigger] alpha_between(track[k], track[k + 1], x)) by {
            if k < n { assert(t[k] == track[k] && t[k + 1] == track[k + 1]); lemma_le3(alpha_at(track, x), p, alpha_between(track[k], track[k + 1], x)); }
        }
        lemma_le3(alpha_at(track, x), p, 1.0f64);
        if p != 1.0f64 && alpha_at(track, x) == p {
            let k = choose|k: int| 0 <= k < t.len() - 1 && p == #[trigger] alpha_between(t[k], t[k + 1], x);
            assert(t[k] == track[k] && t[k + 1] == track[k + 1]);
            assert(alpha_at(track, x) == alpha_between(track[k], track[k + 1], x));
        }
    } else { lemma_one(); }
}

// ---- P23
/// a group keeps its converted items in order, and only those, and the transform declared in it
pub proof fn p23_group(r: Option<model::Shape>, g: schema::shapes::group::GroupShape)
    requires shape_is(r, AnyShape::Group(g)), !shape_hidden(AnyShape::Group(g))
    ensures exists|rs: Seq<Option<model::Shape>>| rs.len() == g.shapes@.len() && #[trigger] group_is(r, rs, g.shapes@)
        && (forall|i: int| 0 <= i < rs.len() ==> item_is(#[trigger] rs[i], g.shapes@[i]))
        && (r is Some ==> r->Some_0 is Group && (r->Some_0)->Group_0@.len() == some_count(rs, rs.len() as int) && group_transform_is((r->Some_0)->Group_1, g.shapes@)
            && forall|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]) is Some ==> some_count(rs, i) < (r->Some_0)->Group_0@.len() && (r->Some_0)->Group_0@[some_count(rs, i) as int] == rs[i]->Some_0)
{
    let rs = choose|rs: Seq<Option<model::Shape>>| rs.len() == g.shapes@.len()
            && (forall|i: int| 0 <= i < g.shapes@.len() ==> if g.shapes@[i] is Transform { rs[i] is None } else { shape_is(#[trigger] rs[i], g.shapes@[i]) })
            && #[trigger] group_is(r, rs, g.shapes@);
    lemma_flat_some(rs);
    assert forall|i: int| 0 <= i < rs.len() implies item_is(#[trigger] rs[i], g.shapes@[i]) by { assert(rs[i] == rs[i]); }
}
/// a hidden shape is nothing, and a hidden item is nothing of its group
pub proof fn p23_hidden(r: Option<model::Shape>, s: AnyShape)
    requires shape_is(r, s), element_of(s).hidden == Some(true)
    ensures r is None
{}
/// the normal blend mode is no blend at all; every other mode but hard mix has one of its name
pub proof fn p23_blend(m: schema::constants::blend_mode::BlendMode)
    ensures (m is Normal || m is HardMix) == (blend_of(m) is None)
{}
}
