//! P09, P10, P11, P24: what the abstract render machine says about layers.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::verif_render::*;
use crate::runtime::Composition;
use crate::runtime::model::*;
use kurbo::{Affine, PathEl, Point};
verus! {
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, crate::verif_spec::group_peniko, crate::verif_render::group_render};

// ---- P09 -------------------------------------------------------------------------------------
/// a layer contributes if and only if it is active
pub proof fn p09_active(c: Composition, set: Seq<Layer>, l: Layer, index: int, p: LPath, t: Affine, alpha: f64, frame: f64)
    ensures layer_evs(c, set, l, index, p, t, alpha, frame).len() > 0 <==> (l.frames.start.ieee_le(frame) && frame.ieee_lt(l.frames.end)),
{
    if active(l, frame) {
        let lt = aff_mul(t, layer_map(set, l, frame));
        let e = layer_evs(c, set, l, index, p, t, alpha, frame);
        assert(e == seq![Ev::Begin { name: l.name@, index }]
            + matte_evs(c, set, l, p, t, alpha, frame)
            + mask_evs(l.masks@, l.masks@.len() as int, lt, frame)
            + content_evs(c, l, p, lt, layer_alpha(l, alpha, frame), frame)
            + pops(n_pops(l))
            + seq![Ev::End]);
    }
}
/// an active layer reports its name and position first and its end last, and what it shows lies between
pub proof fn p09_layer(c: Composition, set: Seq<Layer>, l: Layer, index: int, p: LPath, t: Affine, alpha: f64, frame: f64)
    requires active(l, frame)
    ensures ({
        let e = layer_evs(c, set, l, index, p, t, alpha, frame);
        let m = matte_evs(c, set, l, p, t, alpha, frame);
        let k = l.masks@.len() as int;
        let lt = aff_mul(t, layer_map(set, l, frame));
        let x = content_evs(c, l, p, lt, layer_alpha(l, alpha, frame), frame);
        &&& e.len() == 2 + m.len() + k + x.len() + n_pops(l)
        &&& e[0] == Ev::Begin { name: l.name@, index } && e.last() == Ev::End
        // the matte's commands, then one clip per mask under the layer's own transform, in order, then the content
        &&& e.subrange(1, 1 + m.len() as int) == m
        &&& forall|i: int| 0 <= i < k ==> #[trigger] e[1 + m.len() + i] == (Ev::PushClip { t: lt, shape: ShapeV::Els(l.masks@[i].geometry.els(frame)) })
        &&& e.subrange(1 + m.len() + k, 1 + m.len() + k + x.len()) == x
        // closed again after the content
        &&& forall|i: int| 1 + m.len() + k + x.len() <= i < e.len() - 1 ==> #[trigger] e[i] == Ev::Pop
    }),
{
    let lt = aff_mul(t, layer_map(set, l, frame));
    let m = matte_evs(c, set, l, p, t, alpha, frame);
    let k = l.masks@.len() as int;
    let x = content_evs(c, l, p, lt, layer_alpha(l, alpha, frame), frame);
    let e = layer_evs(c, set, l, index, p, t, alpha, frame);
    let a = seq![Ev::Begin { name: l.name@, index }];
    assert(e == a + m + mask_evs(l.masks@, k, lt, frame) + x + pops(n_pops(l)) + seq![Ev::End]);
    assert(e.subrange(1, 1 + m.len() as int) =~= m);
    assert(e.subrange(1 + m.len() + k, 1 + m.len() + k + x.len()) =~= x);
}
/// isolation layer, matte source under the layer's incoming transform and opacity, then the layer with the matte's blend mode
pub proof fn p09_matte(c: Composition, set: Seq<Layer>, l: Layer, p: LPath, t: Affine, alpha: f64, frame: f64)
    requires p.len() > 0
    ensures ({
        let m = matte_evs(c, set, l, p, t, alpha, frame);
        match l.mask_layer {
            None => m.len() == 0,
            Some(k) => {
                &&& m.len() >= 2
                &&& m[0] == Ev::PushLayer { blend: blend_mix(peniko::Mix::Normal), alpha: 1.0f32, t, shape: view_rect(c) }
                &&& m.last() == Ev::PushLayer { blend: k.0, alpha: 1.0f32, t, shape: view_rect(c) }
                &&& k.1 < set.len() && !on_path(p, p.last().0, k.1 as int) ==> m.subrange(1, m.len() - 1) == layer_evs(c, set, set[k.1 as int], k.1 as int, p.push((p.last().0, k.1 as int)), t, alpha, frame)
                &&& k.1 >= set.len() || on_path(p, p.last().0, k.1 as int) ==> m.len() == 2
            },
        }
    }),
{
    let m = matte_evs(c, set, l, p, t, alpha, frame);
    if let Some(k) = l.mask_layer {
        let inner = if k.1 < set.len() && p.len() > 0 && !on_path(p, p.last().0, k.1 as int) {
                layer_evs(c, set, set[k.1 as int], k.1 as int, p.push((p.last().0, k.1 as int)), t, alpha, frame)
            } else { Seq::empty() };
        assert(m == seq![Ev::PushLayer { blend: blend_mix(peniko::Mix::Normal), alpha: 1.0f32, t, shape: view_rect(c) }] + inner + seq![Ev::PushLayer { blend: k.0, alpha: 1.0f32, t, shape: view_rect(c) }]);
        assert(m.subrange(1, m.len() - 1) =~= inner);
    }
}
/// what layer k of a list contributes by itself: nothing for a matte source
pub open spec fn own(c: Composition, set: Seq<Layer>, k: int, index: int, p: LPath, t: Affine, alpha: f64, frame: f64) -> Seq<Ev> {
    if set[k].is_mask { Seq::empty() } else { layer_evs(c, set, set[k], index, p, t, alpha, frame) }
}
/// layers in a row from the last down to k; `of` is what each contributes
pub open spec fn downto(of: spec_fn(int) -> Seq<Ev>, n: int, k: int) -> Seq<Ev> decreases n - k {
    if k >= n { Seq::empty() } else { downto(of, n, k + 1) + of(k) }
}
/// the composition's layers are emitted from the last to the first, each with its position; those of an asset likewise
pub proof fn p09_order(c: Composition, k: int, t: Affine, alpha: f64, frame: f64)
    requires 0 <= k
    ensures top_evs(c, k, t, alpha, frame) == downto(|i: int| own(c, c.layers@, i, i, seq![(None, i)], t, alpha, frame), c.layers@.len() as int, k)
    decreases c.layers@.len() - k
{
    if k < c.layers@.len() { p09_order(c, k + 1, t, alpha, frame); }
}
pub proof fn p09_frame(c: Composition, frame: f64, t: Affine, alpha: f64)
    ensures comp_evs(c, frame, t, alpha) == seq![Ev::PushClip { t, shape: view_rect(c) }]
            + downto(|i: int| own(c, c.layers@, i, i, seq![(None, i)], t, alpha, frame), c.layers@.len() as int, 0) + seq![Ev::Pop]
{ p09_order(c, 0, t, alpha, frame); }

// ---- P10 -------------------------------------------------------------------------------------
/// the k-th ancestor reached from `parent` (0 is the nearest), none past the end or past a dangling index
pub open spec fn up(set: Seq<Layer>, parent: Option<usize>, k: nat) -> Option<usize> decreases k {
    match parent {
        Some(i) if i < set.len() => if k == 0 { Some(i) } else { up(set, set[i as int].parent, (k - 1) as nat) },
        _ => None,
    }
}
/// the maps of the first n ancestors, the outermost leftmost, applied after m
pub open spec fn above(set: Seq<Layer>, parent: Option<usize>, n: nat, m: Affine, frame: f64) -> Affine decreases n {
    if n == 0 { m } else {
        match up(set, parent, (n - 1) as nat) {
            Some(i) => aff_mul(set[i as int].transform.eval(frame), above(set, parent, (n - 1) as nat, m, frame)),
            None => above(set, parent, (n - 1) as nat, m, frame),
        }
    }
}
pub proof fn lemma_above(set: Seq<Layer>, parent: Option<usize>, n: nat, m: Affine, frame: f64)
    requires parent is Some && parent->0 < set.len()
    ensures above(set, parent, n + 1, m, frame) == above(set, set[parent->0 as int].parent, n, aff_mul(set[parent->0 as int].transform.eval(frame), m), frame)
    decreases n
{
    let i = parent->0;
    if n > 0 {
        lemma_above(set, parent, (n - 1) as nat, m, frame);
        assert(up(set, parent, n) == up(set, set[i as int].parent, (n - 1) as nat));
    } else {
        assert(up(set, parent, 0) == Some(i));
        assert(above(set, parent, 0, m, frame) == m);
        assert(above(set, parent, 1, m, frame) == aff_mul(set[i as int].transform.eval(frame), above(set, parent, 0, m, frame)));
    }
}
/// nothing beyond the end of the chain
pub proof fn lemma_up_none(set: Seq<Layer>, parent: Option<usize>, k: nat, j: nat) requires up(set, parent, k) is None, k <= j ensures up(set, parent, j) is None decreases k {
    match parent { Some(i) if i < set.len() => { if k > 0 { lemma_up_none(set, set[i as int].parent, (k - 1) as nat, (j - 1) as nat); } }, _ => { } }
}
pub proof fn lemma_chain(set: Seq<Layer>, parent: Option<usize>, fuel: nat, m: Affine, frame: f64)
    ensures chain(set, parent, fuel, m, frame) == above(set, parent, fuel, m, frame)
    decreases fuel
{
    match parent {
        Some(i) if i < set.len() => {
            if fuel > 0 {
                lemma_chain(set, set[i as int].parent, (fuel - 1) as nat, aff_mul(set[i as int].transform.eval(frame), m), frame);
                lemma_above(set, parent, (fuel - 1) as nat, m, frame);
            }
        },
        _ => { lemma_none(set, parent, fuel, m, frame); }
    }
}
pub proof fn lemma_none(set: Seq<Layer>, parent: Option<usize>, n: nat, m: Affine, frame: f64)
    requires parent is None || parent->0 >= set.len() ensures above(set, parent, n, m, frame) == m decreases n
{ if n > 0 { lemma_none(set, parent, (n - 1) as nat, m, frame); } }
/// the layer's map is the product of its ancestors' maps, outermost first, and its own
pub proof fn p10_product(set: Seq<Layer>, l: Layer, frame: f64)
    ensures layer_map(set, l, frame) == above(set, l.parent, set.len(), l.transform.eval(frame), frame)
{ lemma_chain(set, l.parent, set.len(), l.transform.eval(frame), frame); }
/// no layer is its own ancestor on this chain
pub open spec fn acyclic(set: Seq<Layer>, parent: Option<usize>) -> bool {
    forall|j: nat, k: nat| #![trigger up(set, parent, j), up(set, parent, k)] j < k && up(set, parent, k) is Some ==> up(set, parent, j) != up(set, parent, k)
}
/// an acyclic chain is followed to its end: every ancestor exactly once
pub proof fn p10_complete(set: Seq<Layer>, parent: Option<usize>, k: nat, m: Affine, frame: f64)
    requires acyclic(set, parent), k >= set.len()
    ensures up(set, parent, set.len()) is None, above(set, parent, k, m, frame) == above(set, parent, set.len(), m, frame)
    decreases k
{
    let n = set.len();
    if up(set, parent, n) is Some {
        let s = Seq::new(n + 1, |j: int| up(set, parent, j as nat)->0 as int);
        assert forall|j: nat| j <= n implies (#[trigger] up(set, parent, j)) is Some by { if up(set, parent, j) is None { lemma_up_none(set, parent, j, n); } }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            let a = up(set, parent, i as nat); let b = up(set, parent, j as nat);
            assert(a is Some && b is Some);
            if i < j { assert(up(set, parent, i as nat) != up(set, parent, j as nat)); } else { assert(up(set, parent, j as nat) != up(set, parent, i as nat)); }
        }
        assert(s.no_duplicates());
        s.unique_seq_to_set();
        let r = vstd::set_lib::set_int_range(0, n as int);
        vstd::set_lib::lemma_int_range(0, n as int);
        assert forall|x: int| s.to_set().contains(x) implies r.contains(x) by {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
            lemma_up_range(set, parent, j as nat);
        }
        assert(s.to_set().subset_of(r));
        vstd::set_lib::lemma_len_subset(s.to_set(), r);
        assert(false);
    }
    if k > n { lemma_up_none(set, parent, n, (k - 1) as nat); p10_complete(set, parent, (k - 1) as nat, m, frame); }
}
pub proof fn lemma_up_range(set: Seq<Layer>, parent: Option<usize>, k: nat) ensures up(set, parent, k) is Some ==> up(set, parent, k)->0 < set.len() decreases k {
    match parent { Some(i) if i < set.len() => { if k > 0 { lemma_up_range(set, set[i as int].parent, (k - 1) as nat); } }, _ => { } }
}

// ---- P11 -------------------------------------------------------------------------------------
/// an instance draws the asset's layers from the last to the first on the asset's own time line
pub proof fn p11_instance(c: Composition, l: Layer, p: LPath, t: Affine, alpha: f64, frame: f64)
    requires l.content is Instance
    ensures ({
        let name = l.content->Instance_name;
        let e = content_evs(c, l, p, t, alpha, frame);
        &&& !c.assets@.contains_key(name) ==> e.len() == 0
        &&& c.assets@.contains_key(name) && !asset_on_path(p, name@) ==> e == downto(|i: int| own(c, c.assets@[name]@, i, i, p.push((Some(name@), i)), t, alpha, inst_frame(l, frame)), c.assets@[name]@.len() as int, 0)
    }),
{
    let name = l.content->Instance_name;
    if c.assets@.contains_key(name) && !asset_on_path(p, name@) { lemma_inst(c, name, 0, p, t, alpha, inst_frame(l, frame)); }
}
pub proof fn lemma_inst(c: Composition, name: String, k: int, p: LPath, t: Affine, alpha: f64, frame: f64)
    requires 0 <= k, c.assets@.contains_key(name), !asset_on_path(p, name@)
    ensures inst_evs(c, name, k, p, t, alpha, frame) == downto(|i: int| own(c, c.assets@[name]@, i, i, p.push((Some(name@), i)), t, alpha, frame), c.assets@[name]@.len() as int, k)
    decreases c.assets@[name]@.len() - k
{
    if k < c.assets@[name]@.len() { lemma_inst(c, name, k + 1, p, t, alpha, frame); }
}
/// over the reals the mapped frame is (frame - start) / stretch
pub proof fn p11_frame(frame: real, start: real, stretch: real) requires stretch != 0real ensures frame / stretch + (0real - start) / stretch == (frame - start) / stretch {
    assert(frame / stretch + (0real - start) / stretch == (frame - start) / stretch) by(nonlinear_arith) requires stretch != 0real;
}
} // verus!
