//! Lemmas over the abstract batch: what one step, and a whole list of shapes, may change.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::verif_render::*;
use crate::runtime::model::*;
use crate::runtime::model::spline::*;
use kurbo::{Affine, PathEl, Point};
verus! {
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, crate::verif_spec::group_peniko, crate::verif_render::group_render};

/// the outlines velato makes begin with a MoveTo
pub proof fn lemma_els_ok(g: Geometry, frame: f64)
    requires shape_ok(Shape::Geometry(g)) ensures path_ok(g.els(frame))
{ }
pub proof fn lemma_path_cat(a: Seq<PathEl>, b: Seq<PathEl>) requires path_ok(a), path_ok(b) ensures path_ok(a + b) {
    if a.len() > 0 { assert((a + b)[0] == a[0]); } else { assert(a + b =~= b); }
}
pub open spec fn keeps(b: Bat, r: Bat, gs: int, ds: int) -> bool {
    &&& bat_ok(r) && scope_ok(r, gs, ds)
    &&& r.geos.take(gs) == b.geos.take(gs)
    &&& r.draws.take(ds) == b.draws.take(ds)
}
pub proof fn lemma_geometry(b: Bat, els: Seq<PathEl>, t: Affine, gs: int, ds: int)
    requires bat_ok(b), scope_ok(b, gs, ds), path_ok(els)
    ensures keeps(b, bat_geometry(b, els, t, gs), gs, ds)
{
    let r = bat_geometry(b, els, t, gs);
    let n = b.geos.len() as int;
    if b.drawn < n && gs < n && aff_eq(b.geos[n - 1].t, t) { lemma_path_cat(b.geos[n - 1].els, els); }
    assert forall|i: int| 0 <= i < r.geos.len() implies path_ok((#[trigger] r.geos[i]).els) by { if i < b.geos.len() { assert(path_ok(b.geos[i].els)); } }
    assert(r.geos.take(gs) =~= b.geos.take(gs));
}
pub proof fn lemma_draw(b: Bat, d: Draw, alpha: f64, frame: f64, gs: int, ds: int)
    requires bat_ok(b), scope_ok(b, gs, ds)
    ensures keeps(b, bat_draw(b, d, alpha, gs, frame), gs, ds)
{
    let r = bat_draw(b, d, alpha, gs, frame);
    assert forall|i: int| 0 <= i < r.draws.len() implies 0 <= (#[trigger] r.draws[i]).lo <= r.draws[i].hi <= r.geos.len() by { if i < b.draws.len() { assert(b.draws[i].lo >= 0); } }
    assert forall|i: int| 0 <= i < ds implies (#[trigger] r.draws[i]).hi <= gs by { assert(b.draws[i].hi <= gs); }
    assert forall|i: int| ds <= i < r.draws.len() implies (#[trigger] r.draws[i]).lo >= gs by { if i < b.draws.len() { assert(b.draws[i].lo >= gs); } }
    assert(r.draws.take(ds) =~= b.draws.take(ds));
}
// ---- repeaters
pub proof fn lemma_mul_le(a: int, b: int, c: int) requires 0 <= a <= b, 0 <= c ensures 0 <= a * c <= b * c { assert(0 <= a * c <= b * c) by(nonlinear_arith) requires 0 <= a <= b, 0 <= c; }
pub proof fn lemma_index(k: int, n: int, c: int) requires 0 <= k < n * c, c >= 0 ensures c > 0, 0 <= k / c < n, 0 <= k % c < c, k == (k / c) * c + k % c {
    assert(c > 0) by(nonlinear_arith) requires 0 <= k < n * c, c >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, c);
    assert(0 <= k / c < n && k == (k / c) * c + k % c) by(nonlinear_arith) requires 0 <= k < n * c, c > 0, k == c * (k / c) + k % c, 0 <= k % c < c;
}
pub proof fn lemma_index_at(j: int, i: int, c: int) requires 0 <= i < c, 0 <= j ensures (j * c + i) / c == j, (j * c + i) % c == i {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j * c + i, c, j, i);
}
/// every paint a repeater makes is the image of one it was given
pub proof fn lemma_rep_draws(tail: Seq<Drw>, r: fixed::Repeater, gs: int, n: int)
    ensures forall|x: int| 0 <= x < rep_draws(tail, r, gs, n).len() ==> exists|k: int, i: int| 0 <= k < tail.len() && 0 <= i < n && !rep_alpha(r, i).ieee_le(0.0f64) && #[trigger] rep_draws(tail, r, gs, n)[x] == #[trigger] rep_draw(tail[k], r, gs, i)
    decreases n
{
    if n > 0 {
        lemma_rep_draws(tail, r, gs, n - 1);
        let q = rep_draws(tail, r, gs, n - 1);
        let s = rep_draws(tail, r, gs, n);
        assert forall|x: int| 0 <= x < s.len() implies exists|k: int, i: int| 0 <= k < tail.len() && 0 <= i < n && !rep_alpha(r, i).ieee_le(0.0f64) && #[trigger] s[x] == #[trigger] rep_draw(tail[k], r, gs, i) by {
            if x < q.len() {
                let (k, i) = choose|k: int, i: int| 0 <= k < tail.len() && 0 <= i < n - 1 && !rep_alpha(r, i).ieee_le(0.0f64) && #[trigger] q[x] == #[trigger] rep_draw(tail[k], r, gs, i);
                assert(s[x] == rep_draw(tail[k], r, gs, i));
            } else {
                assert(s[x] == rep_draw(tail[x - q.len()], r, gs, n - 1));
            }
        }
    }
}
pub proof fn lemma_repeat(b: Bat, r: fixed::Repeater, gs: int, ds: int)
    requires bat_ok(b), scope_ok(b, gs, ds)
    ensures keeps(b, bat_repeat(b, r, gs, ds), gs, ds), bat_repeat(b, r, gs, ds).geos.len() == gs + (b.geos.len() - gs) * r.copies
{
    let o = bat_repeat(b, r, gs, ds);
    let tail = b.geos.skip(gs);
    let c = r.copies as int;
    assert(tail.len() * c >= 0) by(nonlinear_arith) requires tail.len() >= 0, c >= 0;
    assert(o.geos.len() == gs + tail.len() * c);
    assert forall|i: int| 0 <= i < o.geos.len() implies path_ok((#[trigger] o.geos[i]).els) by {
        if i < gs { assert(o.geos[i] == b.geos[i]); } else { lemma_index(i - gs, tail.len() as int, c); assert(o.geos[i].els == tail[(i - gs) / c].els); assert(tail[(i - gs) / c] == b.geos[gs + (i - gs) / c]); }
    }
    let dt = b.draws.skip(ds);
    lemma_rep_draws(dt, r, gs, c);
    let rd = rep_draws(dt, r, gs, c);
    assert forall|i: int| 0 <= i < o.draws.len() implies 0 <= (#[trigger] o.draws[i]).lo <= o.draws[i].hi <= o.geos.len() && (i >= ds ==> o.draws[i].lo >= gs) && (i < ds ==> o.draws[i] == b.draws[i]) by {
        if i < ds { assert(b.draws[i].hi <= gs); assert(o.draws[i] == b.draws[i]); } else {
            let x = i - ds;
            assert(o.draws[i] == rd[x]);
            let (k, j) = choose|k: int, j: int| 0 <= k < dt.len() && 0 <= j < c && !rep_alpha(r, j).ieee_le(0.0f64) && #[trigger] rd[x] == #[trigger] rep_draw(dt[k], r, gs, j);
            let d = dt[k];
            assert(d == b.draws[ds + k]);
            assert(d.lo >= gs && d.hi <= b.geos.len() && d.lo <= d.hi);
            assert(rd[x].lo == gs + (d.lo - gs) * c && rd[x].hi == rd[x].lo + (d.hi - d.lo) * c);
            assert((d.lo - gs) * c >= 0 && (d.hi - d.lo) * c >= 0 && (d.lo - gs) * c + (d.hi - d.lo) * c <= (b.geos.len() - gs) * c) by(nonlinear_arith) requires gs <= d.lo <= d.hi <= b.geos.len(), c >= 0;
        }
    }
    assert(o.geos.take(gs) =~= b.geos.take(gs));
    assert(o.draws.take(ds) =~= b.draws.take(ds));
}
// ---- trims
pub open spec fn cut_wf(c: Cut) -> bool { path_ok(c.acc) && (!c.mv ==> c.acc.len() > 0) }
pub proof fn lemma_cut(segs: Seq<kurbo::PathSeg>, n: int, from: f64, to: f64, acc: Seq<PathEl>)
    requires path_ok(acc), n <= segs.len() ensures cut_wf(cut(segs, n, from, to, acc)) decreases n
{
    if n > 0 { lemma_cut(segs, n - 1, from, to, acc); }
}
pub proof fn lemma_cut_ranges(segs: Seq<kurbo::PathSeg>, rs: Seq<(f64, f64)>, n: int) requires n <= rs.len() ensures path_ok(cut_ranges(segs, rs, n)) decreases n {
    if n > 0 {
        lemma_cut_ranges(segs, rs, n - 1);
        let total = segs_len(segs, 0.1f64);
        lemma_cut(segs, segs.len() as int, rs[n - 1].0.ieee_mul(total), rs[n - 1].1.ieee_mul(total), cut_ranges(segs, rs, n - 1));
    }
}
pub proof fn lemma_trim_els(els: Seq<PathEl>, t: fixed::Trim) requires path_ok(els) ensures path_ok(trim_els(els, t)) {
    if let Some(x) = t.norm() { if !trim_all(t) { let rs = flat2([Some(x.0), x.1]); lemma_cut_ranges(path_segs(els), rs, rs.len() as int); } }
}
/// the elements of the first n pieces
pub open spec fn cat(b: Bat, n: int) -> Seq<PathEl> decreases n { if n <= 0 { Seq::empty() } else { cat(b, n - 1) + b.geos[n - 1].els } }
pub proof fn lemma_cat(b: Bat, i: int, n: int)
    requires 0 <= i < n
    ensures cat(b, i).len() + b.geos[i].els.len() <= cat(b, n).len(), cat(b, i + 1).len() == cat(b, i).len() + b.geos[i].els.len(),
        cat(b, n).subrange(cat(b, i).len() as int, cat(b, i + 1).len() as int) == b.geos[i].els
    decreases n
{
    if i == n - 1 { assert(cat(b, n).subrange(cat(b, i).len() as int, cat(b, i + 1).len() as int) =~= b.geos[i].els); }
    else {
        lemma_cat(b, i, n - 1);
        assert(cat(b, n).subrange(cat(b, i).len() as int, cat(b, i + 1).len() as int) =~= cat(b, n - 1).subrange(cat(b, i).len() as int, cat(b, i + 1).len() as int));
    }
}
/// once past the end, the rest of the segments adds nothing
pub proof fn lemma_cut_done(segs: Seq<kurbo::PathSeg>, k: int, n: int, from: f64, to: f64, acc: Seq<PathEl>)
    requires 0 <= k <= n, cut(segs, k, from, to, acc).done
    ensures cut(segs, n, from, to, acc) == cut(segs, k, from, to, acc) decreases n
{
    if k < n { lemma_cut_done(segs, k, n - 1, from, to, acc); }
}
pub proof fn lemma_trim(b: Bat, t: fixed::Trim, gs: int, ds: int)
    requires bat_ok(b), scope_ok(b, gs, ds) ensures keeps(b, bat_trim(b, t, gs), gs, ds)
{
    let r = bat_trim(b, t, gs);
    assert forall|i: int| 0 <= i < r.geos.len() implies path_ok((#[trigger] r.geos[i]).els) by { assert(path_ok(b.geos[i].els)); lemma_trim_els(b.geos[i].els, t); }
    assert(r.geos.take(gs) =~= b.geos.take(gs));
}
// ---- lists
pub proof fn lemma_keeps_trans(a: Bat, b: Bat, c: Bat, gs: int, ds: int)
    requires keeps(a, b, gs, ds), keeps(b, c, gs, ds) ensures keeps(a, c, gs, ds) { }
/// what a nested list leaves alone, the enclosing one leaves alone
pub proof fn lemma_nested(a: Bat, r: Bat, gs: int, ds: int)
    requires bat_ok(a), scope_ok(a, gs, ds), keeps(a, r, a.geos.len() as int, a.draws.len() as int) ensures keeps(a, r, gs, ds)
{
    let n = a.geos.len() as int; let m = a.draws.len() as int;
    assert forall|i: int| 0 <= i < n implies r.geos[i] == a.geos[i] by { assert(r.geos.take(n)[i] == a.geos.take(n)[i]); }
    assert forall|i: int| 0 <= i < m implies r.draws[i] == a.draws[i] by { assert(r.draws.take(m)[i] == a.draws.take(m)[i]); }
    assert(r.geos.take(gs) =~= a.geos.take(gs));
    assert(r.draws.take(ds) =~= a.draws.take(ds));
    assert forall|i: int| 0 <= i < ds implies (#[trigger] r.draws[i]).hi <= gs by { assert(a.draws[i].hi <= gs); }
    assert forall|i: int| ds <= i < r.draws.len() implies (#[trigger] r.draws[i]).lo >= gs by { if i < m { assert(a.draws[i].lo >= gs); } }
}
pub proof fn lemma_step(b: Bat, s: Shape, t: Affine, alpha: f64, frame: f64, gs: int, ds: int)
    requires bat_ok(b), scope_ok(b, gs, ds), shape_ok(s)
    ensures keeps(b, shape_step(b, s, t, alpha, frame, gs, ds), gs, ds)
    decreases s, 0int
{
    match s {
        Shape::Group(v, g) => {
            let n = b.geos.len() as int; let m = b.draws.len() as int;
            assert(scope_ok(b, n, m));
            lemma_run(b, v@, v@.len() as int, aff_mul(t, group_map(g, frame)), nested_alpha(alpha, g, frame), frame, n, m);
            let r = shapes_run(b, v@, v@.len() as int, aff_mul(t, group_map(g, frame)), nested_alpha(alpha, g, frame), frame, n, m);
            assert(keeps(b, r, n, m));
            lemma_nested(b, r, gs, ds);
            assert(shape_step(b, s, t, alpha, frame, gs, ds) == r);
        }
        Shape::Geometry(g) => { lemma_els_ok(g, frame); lemma_geometry(b, g.els(frame), t, gs, ds); }
        Shape::Draw(d) => { lemma_draw(b, d, alpha, frame, gs, ds); }
        Shape::Repeater(r) => { lemma_repeat(b, r.eval(frame), gs, ds); }
        Shape::Trim(m) => { lemma_trim(b, m.eval(frame), gs, ds); }
    }
}
pub proof fn lemma_run(b: Bat, s: Seq<Shape>, n: int, t: Affine, alpha: f64, frame: f64, gs: int, ds: int)
    requires bat_ok(b), scope_ok(b, gs, ds), shapes_ok(s), n <= s.len()
    ensures keeps(b, shapes_run(b, s, n, t, alpha, frame, gs, ds), gs, ds)
    decreases s, n
{
    if n > 0 {
        lemma_run(b, s, n - 1, t, alpha, frame, gs, ds);
        let c = shapes_run(b, s, n - 1, t, alpha, frame, gs, ds);
        assert(shape_ok(s[n - 1]));
        lemma_step(c, s[n - 1], t, alpha, frame, gs, ds);
        lemma_keeps_trans(b, c, shapes_run(b, s, n, t, alpha, frame, gs, ds), gs, ds);
    }
}
} // verus!
