//! P12, P14, P15, P24: what the abstract batch machine says about scopes, trims, repeaters and opacity.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::verif_render::*;
use crate::verif_batch::*;
use crate::runtime::Composition;
use crate::runtime::model::*;
use kurbo::{Affine, PathEl, Point};
verus! {
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, crate::verif_spec::group_peniko, crate::verif_render::group_render};

// ---- P12 -------------------------------------------------------------------------------------
/// neither trims nor repeaters anywhere in the shape
pub open spec fn plain(s: Shape) -> bool decreases s, 0int { match s { Shape::Group(v, g) => plain_all(v@), Shape::Repeater(_) => false, Shape::Trim(_) => false, _ => true } }
pub open spec fn plain_all(s: Seq<Shape>) -> bool decreases s, 1int { forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
/// the pieces a list declares, in order, each with the composed transform of the group that declares it
pub open spec fn leaves(s: Shape, t: Affine, frame: f64) -> Seq<Geo> decreases s, 0int {
    match s {
        Shape::Group(v, g) => leaves_run(v@, v@.len() as int, aff_mul(t, group_map(g, frame)), frame),
        Shape::Geometry(g) => seq![Geo { els: g.els(frame), t }],
        _ => Seq::empty(),
    }
}
pub open spec fn leaves_run(s: Seq<Shape>, n: int, t: Affine, frame: f64) -> Seq<Geo> decreases s, n {
    if n <= 0 || n > s.len() { Seq::empty() } else { leaves_run(s, n - 1, t, frame) + leaves(s[n - 1], t, frame) }
}
/// the path elements of pieces, each with the transform it is painted with
pub open spec fn cover(g: Seq<Geo>) -> Seq<(PathEl, Affine)> decreases g.len() {
    if g.len() == 0 { Seq::empty() } else { cover(g.drop_last()) + Seq::new(g.last().els.len(), |i: int| (g.last().els[i], g.last().t)) }
}
/// the same elements in the same order under the same transforms (equal as floats)
pub open spec fn same_cover(a: Seq<(PathEl, Affine)>, b: Seq<(PathEl, Affine)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 && (a[i].1 == b[i].1 || aff_eq(a[i].1, b[i].1))
}
/// x is `base`, untouched, followed by `add`
pub open spec fn extends(x: Seq<(PathEl, Affine)>, base: Seq<(PathEl, Affine)>, add: Seq<(PathEl, Affine)>) -> bool {
    x.len() == base.len() + add.len() && x.take(base.len() as int) == base && same_cover(x.skip(base.len() as int), add)
}
pub proof fn lemma_cover_push(g: Seq<Geo>, x: Geo) ensures cover(g.push(x)) == cover(g) + Seq::new(x.els.len(), |i: int| (x.els[i], x.t)) { assert(g.push(x).drop_last() =~= g); }
pub proof fn lemma_cover_cat(a: Seq<Geo>, b: Seq<Geo>) ensures cover(a + b) == cover(a) + cover(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(cover(a) + cover(b) =~= cover(a)); } else {
        lemma_cover_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(cover(a + b) =~= cover(a) + cover(b));
    }
}
pub proof fn lemma_cover_geometry(b: Bat, els: Seq<PathEl>, t: Affine, gs: int, from: int)
    requires 0 <= from <= gs <= b.geos.len()
    ensures extends(cover(bat_geometry(b, els, t, gs).geos.skip(from)), cover(b.geos.skip(from)), cover(seq![Geo { els, t }]))
{
    let n = b.geos.len() as int;
    let r = bat_geometry(b, els, t, gs).geos.skip(from);
    let q = b.geos.skip(from);
    lemma_cover_push(Seq::empty(), Geo { els, t });
    assert(seq![Geo { els, t }] =~= Seq::<Geo>::empty().push(Geo { els, t }));
    if b.drawn < n && gs < n && aff_eq(b.geos[n - 1].t, t) {
        assert(r.drop_last() =~= q.drop_last());
        assert(r.last() == (Geo { els: q.last().els + els, t: q.last().t }));
        assert(cover(r).take(cover(q).len() as int) =~= cover(q));
    } else {
        assert(r =~= q.push(Geo { els, t }));
        lemma_cover_push(q, Geo { els, t });
        assert(cover(r).take(cover(q).len() as int) =~= cover(q));
    }
}
/// the pieces of a list's scope are exactly those declared in it so far, with their own transforms
pub proof fn lemma_cover_step(b: Bat, s: Shape, t: Affine, alpha: f64, frame: f64, gs: int, ds: int, from: int)
    requires plain(s), 0 <= from <= gs <= b.geos.len()
    ensures extends(cover(shape_step(b, s, t, alpha, frame, gs, ds).geos.skip(from)), cover(b.geos.skip(from)), cover(leaves(s, t, frame))),
        shape_step(b, s, t, alpha, frame, gs, ds).geos.len() >= b.geos.len()
    decreases s, 0int
{
    match s {
        Shape::Group(v, g) => { lemma_cover_run(b, v@, v@.len() as int, aff_mul(t, group_map(g, frame)), nested_alpha(alpha, g, frame), frame, b.geos.len() as int, b.draws.len() as int, from); }
        Shape::Geometry(g) => { lemma_cover_geometry(b, g.els(frame), t, gs, from); }
        _ => { let z = cover(b.geos.skip(from)); assert(z.take(z.len() as int) =~= z); }
    }
}
pub proof fn lemma_cover_run(b: Bat, s: Seq<Shape>, n: int, t: Affine, alpha: f64, frame: f64, gs: int, ds: int, from: int)
    requires plain_all(s), 0 <= n <= s.len(), 0 <= from <= gs <= b.geos.len()
    ensures extends(cover(shapes_run(b, s, n, t, alpha, frame, gs, ds).geos.skip(from)), cover(b.geos.skip(from)), cover(leaves_run(s, n, t, frame))),
        shapes_run(b, s, n, t, alpha, frame, gs, ds).geos.len() >= b.geos.len()
    decreases s, n
{
    if n > 0 {
        lemma_cover_run(b, s, n - 1, t, alpha, frame, gs, ds, from);
        let c = shapes_run(b, s, n - 1, t, alpha, frame, gs, ds);
        assert(plain(s[n - 1]));
        lemma_cover_step(c, s[n - 1], t, alpha, frame, gs, ds, from);
        lemma_cover_cat(leaves_run(s, n - 1, t, frame), leaves(s[n - 1], t, frame));
        let x = cover(shapes_run(b, s, n, t, alpha, frame, gs, ds).geos.skip(from));
        let y = cover(c.geos.skip(from));
        let base = cover(b.geos.skip(from));
        let u = cover(leaves_run(s, n - 1, t, frame));
        let v = cover(leaves(s[n - 1], t, frame));
        let w = cover(leaves_run(s, n, t, frame));
        assert(w == u + v);
        assert(x.take(base.len() as int) =~= base) by { assert forall|i: int| 0 <= i < base.len() implies x[i] == base[i] by { assert(x.take(y.len() as int)[i] == y[i]); assert(y.take(base.len() as int)[i] == base[i]); } }
        let k = base.len() as int;
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] x.skip(k)[i]).0 == w[i].0 && (x.skip(k)[i].1 == w[i].1 || aff_eq(x.skip(k)[i].1, w[i].1)) by {
            if i < u.len() { assert(x.take(y.len() as int)[k + i] == y[k + i]); assert(y.skip(k)[i].0 == u[i].0); }
            else { assert(x.skip(y.len() as int)[i - u.len()].0 == v[i - u.len()].0); }
        }
    } else { let z = cover(b.geos.skip(from)); assert(z.take(z.len() as int) =~= z); }
}
/// a paint that is shape n of its list covers exactly the pieces declared before it in that list (nested groups included)
pub proof fn p12_covers(b: Bat, s: Seq<Shape>, n: int, t: Affine, alpha: f64, frame: f64)
    requires plain_all(s), 0 <= n < s.len(), s[n] is Draw
    ensures ({
        let r = shapes_run(b, s, n + 1, t, alpha, frame, b.geos.len() as int, b.draws.len() as int);
        let d = r.draws.last();
        r.draws.len() > 0 && d.lo == b.geos.len() && d.hi == r.geos.len() && same_cover(cover(r.geos.subrange(d.lo, d.hi)), cover(leaves_run(s, n, t, frame)))
    }),
{
    let gs = b.geos.len() as int; let ds = b.draws.len() as int;
    let q = shapes_run(b, s, n, t, alpha, frame, gs, ds);
    let r = shapes_run(b, s, n + 1, t, alpha, frame, gs, ds);
    lemma_cover_run(b, s, n, t, alpha, frame, gs, ds, gs);
    assert(r == shape_step(q, s[n], t, alpha, frame, gs, ds));
    assert(b.geos.skip(gs) =~= Seq::<Geo>::empty());
    let x = cover(q.geos.skip(gs));
    assert(x.skip(0) =~= x);
    assert(r.geos.subrange(r.draws.last().lo, r.draws.last().hi) =~= q.geos.skip(gs));
}
/// every paint so far is closed: nothing is merged into what it covers
pub open spec fn sealed(b: Bat) -> bool { bat_ok(b) && forall|i: int| 0 <= i < b.draws.len() ==> (#[trigger] b.draws[i]).hi <= b.drawn }
/// more geometry, groups and paints never change what the earlier paints cover, nor the paints
pub open spec fn grows(b: Bat, r: Bat) -> bool {
    &&& sealed(r) && r.drawn >= b.drawn && r.geos.len() >= b.geos.len() && r.draws.len() >= b.draws.len()
    &&& r.draws.take(b.draws.len() as int) == b.draws
    &&& forall|i: int| 0 <= i < b.drawn ==> #[trigger] r.geos[i] == b.geos[i]
}
pub proof fn lemma_grows_trans(a: Bat, b: Bat, c: Bat) requires sealed(a), grows(a, b), grows(b, c) ensures grows(a, c) {
    assert(c.draws.take(a.draws.len() as int) =~= a.draws) by {
        assert forall|i: int| 0 <= i < a.draws.len() implies c.draws[i] == a.draws[i] by { assert(c.draws.take(b.draws.len() as int)[i] == b.draws[i]); assert(b.draws.take(a.draws.len() as int)[i] == a.draws[i]); }
    }
    assert forall|i: int| 0 <= i < a.drawn implies #[trigger] c.geos[i] == a.geos[i] by { assert(b.geos[i] == a.geos[i]); }
}
pub proof fn lemma_grows_step(b: Bat, s: Shape, t: Affine, alpha: f64, frame: f64, gs: int, ds: int)
    requires plain(s), shape_ok(s), sealed(b), scope_ok(b, gs, ds)
    ensures grows(b, shape_step(b, s, t, alpha, frame, gs, ds))
    decreases s, 0int
{
    let r = shape_step(b, s, t, alpha, frame, gs, ds);
    lemma_step(b, s, t, alpha, frame, gs, ds);
    match s {
        Shape::Group(v, g) => { assert(scope_ok(b, b.geos.len() as int, b.draws.len() as int)); lemma_grows_run(b, v@, v@.len() as int, aff_mul(t, group_map(g, frame)), nested_alpha(alpha, g, frame), frame, b.geos.len() as int, b.draws.len() as int); }
        Shape::Geometry(g) => { assert(r.draws.take(b.draws.len() as int) =~= b.draws); assert forall|i: int| 0 <= i < r.draws.len() implies (#[trigger] r.draws[i]).hi <= r.drawn by { assert(b.draws[i].hi <= b.drawn); } }
        Shape::Draw(d) => {
            assert(r.draws.take(b.draws.len() as int) =~= b.draws);
            assert forall|i: int| 0 <= i < r.draws.len() implies (#[trigger] r.draws[i]).hi <= r.drawn by { if i < b.draws.len() { assert(b.draws[i].hi <= b.drawn); } }
        }
        _ => { }
    }
}
pub proof fn lemma_grows_run(b: Bat, s: Seq<Shape>, n: int, t: Affine, alpha: f64, frame: f64, gs: int, ds: int)
    requires plain_all(s), shapes_ok(s), 0 <= n <= s.len(), sealed(b), scope_ok(b, gs, ds)
    ensures grows(b, shapes_run(b, s, n, t, alpha, frame, gs, ds))
    decreases s, n
{
    if n > 0 {
        lemma_grows_run(b, s, n - 1, t, alpha, frame, gs, ds);
        lemma_run(b, s, n - 1, t, alpha, frame, gs, ds);
        let c = shapes_run(b, s, n - 1, t, alpha, frame, gs, ds);
        assert(plain(s[n - 1])); assert(shape_ok(s[n - 1]));
        lemma_grows_step(c, s[n - 1], t, alpha, frame, gs, ds);
        lemma_grows_trans(b, c, shapes_run(b, s, n, t, alpha, frame, gs, ds));
    } else { assert(b.draws.take(b.draws.len() as int) =~= b.draws); }
}
/// what a paint covers after shape n of its list is what it covers at the end, whatever follows
pub proof fn p12_stable(b: Bat, s: Seq<Shape>, n: int, t: Affine, alpha: f64, frame: f64, i: int)
    requires plain_all(s), shapes_ok(s), 0 <= n <= s.len(), sealed(b)
    ensures ({
        let gs = b.geos.len() as int; let ds = b.draws.len() as int;
        let q = shapes_run(b, s, n, t, alpha, frame, gs, ds);
        let r = shapes_all(b, s, t, alpha, frame);
        0 <= i < q.draws.len() ==> r.draws[i] == q.draws[i] && r.geos.subrange(q.draws[i].lo, q.draws[i].hi) == q.geos.subrange(q.draws[i].lo, q.draws[i].hi)
    }),
    decreases s.len() - n
{
    let gs = b.geos.len() as int; let ds = b.draws.len() as int;
    let q = shapes_run(b, s, n, t, alpha, frame, gs, ds);
    let r = shapes_all(b, s, t, alpha, frame);
    lemma_grows_run(b, s, n, t, alpha, frame, gs, ds);
    lemma_run(b, s, n, t, alpha, frame, gs, ds);
    if n < s.len() && 0 <= i < q.draws.len() {
        let w = shapes_run(b, s, n + 1, t, alpha, frame, gs, ds);
        p12_stable(b, s, n + 1, t, alpha, frame, i);
        assert(plain(s[n])); assert(shape_ok(s[n]));
        lemma_grows_step(q, s[n], t, alpha, frame, gs, ds);
        assert(w == shape_step(q, s[n], t, alpha, frame, gs, ds));
        assert(w.draws.take(q.draws.len() as int)[i] == q.draws[i]);
        assert(q.draws[i].hi <= q.drawn);
        assert(w.geos.subrange(q.draws[i].lo, q.draws[i].hi) =~= q.geos.subrange(q.draws[i].lo, q.draws[i].hi));
    }
}
/// paints are emitted from the last to the first, each over all its pieces in order
pub proof fn p12_emission(b: Bat, k: int) requires 0 <= k < b.draws.len(), bat_ok(b)
    ensures ({
        let d = b.draws[k];
        &&& bat_evs(b, k) == bat_evs(b, k + 1) + draw_evs(b, d, d.hi - d.lo)
        &&& forall|j: int| 0 <= j < d.hi - d.lo ==> #[trigger] draw_evs(b, d, d.hi - d.lo)[j] == (Ev::Draw { stroke: d.stroke, t: b.geos[d.lo + j].t, brush: paint(d), shape: ShapeV::Els(b.geos[d.lo + j].els) })
    }),
{ }

// ---- P14 -------------------------------------------------------------------------------------
/// a trim touches the pieces of its own scope and nothing else
pub proof fn p14_frame(b: Bat, t: fixed::Trim, gs: int) requires 0 <= gs <= b.geos.len()
    ensures ({
        let r = bat_trim(b, t, gs);
        &&& r.draws == b.draws && r.drawn == b.drawn && r.geos.len() == b.geos.len()
        &&& forall|i: int| 0 <= i < gs ==> #[trigger] r.geos[i] == b.geos[i]
        &&& forall|i: int| gs <= i < b.geos.len() ==> (#[trigger] r.geos[i]).t == b.geos[i].t && r.geos[i].els == trim_els(b.geos[i].els, t)
    }),
{ }
/// a trim that selects nothing leaves empty pieces; one that selects everything changes nothing
pub proof fn p14_extreme(b: Bat, t: fixed::Trim, gs: int) requires 0 <= gs <= b.geos.len()
    ensures t.norm() is None ==> forall|i: int| gs <= i < b.geos.len() ==> (#[trigger] bat_trim(b, t, gs).geos[i]).els.len() == 0,
        trim_all(t) ==> bat_trim(b, t, gs) == b,
{ if trim_all(t) { assert(bat_trim(b, t, gs).geos =~= b.geos); } }
/// geometry declared after a trim arrives whole: nothing earlier comes back, nothing of it is cut
pub proof fn p14_later(b: Bat, t: fixed::Trim, gs: int, els: Seq<PathEl>, m: Affine) requires 0 <= gs <= b.geos.len()
    ensures ({
        let q = bat_trim(b, t, gs);
        let r = bat_geometry(q, els, m, gs);
        let n = b.geos.len() as int;
        &&& forall|i: int| 0 <= i < n - 1 ==> #[trigger] r.geos[i] == q.geos[i]
        &&& (r.geos.len() == n + 1 && r.geos[n] == (Geo { els, t: m }) && (n > 0 ==> r.geos[n - 1] == q.geos[n - 1]))
            || (r.geos.len() == n && n > gs && r.geos[n - 1] == (Geo { els: trim_els(b.geos[n - 1].els, t) + els, t: q.geos[n - 1].t }))
    }),
{ }
/// the same, whatever sequence of shapes follows in the list: the pieces before the scope stay as they were
pub proof fn p14_outside(b: Bat, s: Seq<Shape>, n: int, t: Affine, alpha: f64, frame: f64, i: int)
    requires bat_ok(b), shapes_ok(s), 0 <= n <= s.len(), 0 <= i < b.geos.len()
    ensures shapes_run(b, s, n, t, alpha, frame, b.geos.len() as int, b.draws.len() as int).geos.len() >= b.geos.len(),
        shapes_run(b, s, n, t, alpha, frame, b.geos.len() as int, b.draws.len() as int).geos[i] == b.geos[i]
{
    let gs = b.geos.len() as int;
    assert(scope_ok(b, gs, b.draws.len() as int));
    lemma_run(b, s, n, t, alpha, frame, gs, b.draws.len() as int);
    let r = shapes_run(b, s, n, t, alpha, frame, gs, b.draws.len() as int);
    assert(r.geos.take(gs)[i] == b.geos.take(gs)[i]);
}

// ---- P15 -------------------------------------------------------------------------------------
/// copy i of piece j, at its place
pub proof fn p15_pieces(b: Bat, r: fixed::Repeater, gs: int, ds: int, j: int, i: int)
    requires bat_ok(b), scope_ok(b, gs, ds), 0 <= j < b.geos.len() - gs, 0 <= i < r.copies
    ensures ({
        let o = bat_repeat(b, r, gs, ds);
        let k = gs + j * r.copies + i;
        &&& o.geos.len() == gs + (b.geos.len() - gs) * r.copies && gs <= k < o.geos.len()
        &&& o.geos[k].els == b.geos[gs + j].els && o.geos[k].t == aff_mul(b.geos[gs + j].t, r.map(i as usize))
    }),
{
    lemma_repeat(b, r, gs, ds);
    lemma_index_at(j, i, r.copies as int);
    let n = b.geos.len() - gs; let c = r.copies as int;
    assert(0 <= j * c && j * c + i < n * c) by(nonlinear_arith) requires 0 <= j < n, 0 <= i < c;
    let tail = b.geos.skip(gs);
    assert(bat_repeat(b, r, gs, ds).geos[gs + j * c + i] == rep_geos(tail, r)[j * c + i]);
}
/// nothing outside the scope changes
pub proof fn p15_frame(b: Bat, r: fixed::Repeater, gs: int, ds: int)
    requires bat_ok(b), scope_ok(b, gs, ds)
    ensures forall|i: int| 0 <= i < gs ==> #[trigger] bat_repeat(b, r, gs, ds).geos[i] == b.geos[i],
        forall|i: int| 0 <= i < ds ==> #[trigger] bat_repeat(b, r, gs, ds).draws[i] == b.draws[i],
{ }
/// a repeated paint covers all copies of exactly the pieces it covered
pub proof fn p15_covers(d: Drw, r: fixed::Repeater, gs: int, j: int, i: int, k: int)
    requires gs <= d.lo <= d.hi, 0 <= j, 0 <= i < r.copies
    ensures rep_draw(d, r, gs, k).lo <= gs + j * r.copies + i < rep_draw(d, r, gs, k).hi <==> d.lo <= gs + j < d.hi
{
    let c = r.copies as int; let a = d.lo - gs; let n = d.hi - d.lo;
    assert(a * c <= j * c + i < a * c + n * c <==> a <= j < a + n) by(nonlinear_arith) requires 0 <= i < c, 0 <= j, a >= 0, n >= 0;
}
/// the opacity factors; copies with a factor that is not positive are omitted
pub proof fn p15_alpha(r: fixed::Repeater, i: int)
    ensures r.copies > 1 ==> rep_alpha(r, i) == r.start_opacity.ieee_div(100.0f64).ieee_add(r.end_opacity.ieee_div(100.0f64).ieee_sub(r.start_opacity.ieee_div(100.0f64)).ieee_div(c_usize_f64(r.copies)).ieee_mul(c_usize_f64(i as usize))),
        r.copies <= 1 ==> rep_alpha(r, i) == r.start_opacity.ieee_div(100.0f64).ieee_add(0.0f64.ieee_mul(c_usize_f64(i as usize))),
{ }
pub open spec fn rounds(r: fixed::Repeater, n: int) -> int decreases n { if n <= 0 { 0 } else { rounds(r, n - 1) + if rep_alpha(r, n - 1).ieee_le(0.0f64) { 0int } else { 1 } } }
/// one round of all paints per copy with a positive factor, in order of the copies
pub proof fn p15_rounds(tail: Seq<Drw>, r: fixed::Repeater, gs: int, n: int)
    requires 0 <= n
    ensures rounds(r, n) >= 0, rep_draws(tail, r, gs, n).len() == tail.len() * rounds(r, n),
        n > 0 && !rep_alpha(r, n - 1).ieee_le(0.0f64) ==> forall|k: int| 0 <= k < tail.len() ==> #[trigger] rep_draws(tail, r, gs, n)[tail.len() * rounds(r, n - 1) + k] == rep_draw(tail[k], r, gs, n - 1)
            && rep_draw(tail[k], r, gs, n - 1).alpha == tail[k].alpha.ieee_mul(rep_alpha(r, n - 1)),
    decreases n
{
    if n > 0 {
        p15_rounds(tail, r, gs, n - 1);
        let q = rounds(r, n - 1);
        assert(tail.len() * (q + 1) == tail.len() * q + tail.len()) by(nonlinear_arith);
        let a = rep_draws(tail, r, gs, n - 1);
        if !rep_alpha(r, n - 1).ieee_le(0.0f64) {
            let z = Seq::new(tail.len(), |k: int| rep_draw(tail[k], r, gs, n - 1));
            assert(rep_draws(tail, r, gs, n) == a + z);
            assert forall|k: int| 0 <= k < tail.len() implies #[trigger] rep_draws(tail, r, gs, n)[tail.len() * q + k] == rep_draw(tail[k], r, gs, n - 1) by { assert((a + z)[a.len() + k] == z[k]); }
        }
    } else { assert(tail.len() * 0 == 0) by(nonlinear_arith); }
}

// ---- P24 -------------------------------------------------------------------------------------
/// the opacities of the paints a list declares: the incoming opacity, that of every enclosing group, the paint's own
pub open spec fn own_alpha(alpha: f64, d: Draw, frame: f64) -> f64 { alpha.ieee_mul(d.opacity.eval(frame)).ieee_div(100.0f64) }
pub open spec fn alphas(s: Shape, alpha: f64, frame: f64) -> Seq<f64> decreases s, 0int {
    match s {
        Shape::Group(v, g) => alphas_run(v@, v@.len() as int, nested_alpha(alpha, g, frame), frame),
        Shape::Draw(d) => seq![own_alpha(alpha, d, frame)],
        _ => Seq::empty(),
    }
}
pub open spec fn alphas_run(s: Seq<Shape>, n: int, alpha: f64, frame: f64) -> Seq<f64> decreases s, n {
    if n <= 0 || n > s.len() { Seq::empty() } else { alphas_run(s, n - 1, alpha, frame) + alphas(s[n - 1], alpha, frame) }
}
pub open spec fn draw_alphas(b: Bat) -> Seq<f64> { Seq::new(b.draws.len(), |i: int| b.draws[i].alpha) }
/// a repeater is the only shape that changes the opacity of a paint after it is declared
pub open spec fn unrepeated(s: Shape) -> bool decreases s, 0int { match s { Shape::Group(v, g) => unrepeated_all(v@), Shape::Repeater(_) => false, _ => true } }
pub open spec fn unrepeated_all(s: Seq<Shape>) -> bool decreases s, 1int { forall|i: int| 0 <= i < s.len() ==> unrepeated(#[trigger] s[i]) }
pub proof fn p24_step(b: Bat, s: Shape, t: Affine, alpha: f64, frame: f64, gs: int, ds: int)
    requires unrepeated(s)
    ensures draw_alphas(shape_step(b, s, t, alpha, frame, gs, ds)) == draw_alphas(b) + alphas(s, alpha, frame)
    decreases s, 0int
{
    match s {
        Shape::Group(v, g) => { p24_run(b, v@, v@.len() as int, aff_mul(t, group_map(g, frame)), nested_alpha(alpha, g, frame), frame, b.geos.len() as int, b.draws.len() as int); }
        Shape::Draw(d) => {
            assert(shape_step(b, s, t, alpha, frame, gs, ds).draws.last().alpha == own_alpha(alpha, d, frame));
            assert(draw_alphas(shape_step(b, s, t, alpha, frame, gs, ds)) =~= draw_alphas(b) + alphas(s, alpha, frame));
        }
        Shape::Geometry(g) => { assert(draw_alphas(shape_step(b, s, t, alpha, frame, gs, ds)) =~= draw_alphas(b) + alphas(s, alpha, frame)); }
        Shape::Trim(g) => { assert(draw_alphas(shape_step(b, s, t, alpha, frame, gs, ds)) =~= draw_alphas(b) + alphas(s, alpha, frame)); }
        Shape::Repeater(_) => { }
    }
}
pub proof fn p24_run(b: Bat, s: Seq<Shape>, n: int, t: Affine, alpha: f64, frame: f64, gs: int, ds: int)
    requires unrepeated_all(s), 0 <= n <= s.len()
    ensures draw_alphas(shapes_run(b, s, n, t, alpha, frame, gs, ds)) == draw_alphas(b) + alphas_run(s, n, alpha, frame)
    decreases s, n
{
    if n > 0 {
        p24_run(b, s, n - 1, t, alpha, frame, gs, ds);
        assert(unrepeated(s[n - 1]));
        p24_step(shapes_run(b, s, n - 1, t, alpha, frame, gs, ds), s[n - 1], t, alpha, frame, gs, ds);
        assert(draw_alphas(b) + alphas_run(s, n - 1, alpha, frame) + alphas(s[n - 1], alpha, frame) =~= draw_alphas(b) + alphas_run(s, n, alpha, frame));
    } else { assert(draw_alphas(b) + alphas_run(s, n, alpha, frame) =~= draw_alphas(b)); }
}
/// the opacity handed to an instance's layers and to a layer's shapes is the incoming one times the layer's own; a layer's parents do not occur in it
pub proof fn p24_layer(l: Layer, k: Layer, alpha: f64, frame: f64)
    ensures layer_alpha(l, alpha, frame) == alpha.ieee_mul(l.opacity.eval(frame)).ieee_div(100.0f64),
        l.opacity == k.opacity ==> layer_alpha(l, alpha, frame) == layer_alpha(k, alpha, frame),
{ }
} // verus!
