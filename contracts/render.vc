@file runtime/render.rs
@wrap trait RenderSink
@wrap struct Renderer
@wrap struct LayerPath
@wrap struct DrawData
@wrap struct GeometryData
@wrap struct Batch
@itemattr struct DrawData
#[verifier::external_derive]
@itemattr struct GeometryData
#[verifier::external_derive]
@desugar cast neg option compound
@prepend
use crate::verif_render::*;
use crate::verif_batch::*;
use crate::verif_spec::*;
use crate::runtime::model::Mask;
use crate::runtime::model::lemma_eq_one;
@items trait RenderSink
    /// the commands received so far
    spec fn trace(&self) -> Seq<Ev>;
@fn trait RenderSink::push_layer
@desugar argimpl
@spec
    ensures final(self).trace() == old(self).trace().push(Ev::PushLayer { blend: into_blend(blend), alpha, t: transform, shape: shape_v(*shape) })
@fn trait RenderSink::push_clip_layer
@desugar argimpl
@spec
    ensures final(self).trace() == old(self).trace().push(Ev::PushClip { t: transform, shape: shape_v(*shape) })
@fn trait RenderSink::pop_layer
@desugar argimpl
@spec
    ensures final(self).trace() == old(self).trace().push(Ev::Pop)
@fn trait RenderSink::draw
@desugar argimpl
@spec
    ensures final(self).trace() == old(self).trace().push(Ev::Draw { stroke: opt_ref(stroke), t: transform, brush: *brush, shape: shape_v(*shape) })
@fn trait RenderSink::begin_layer_group
@trusted
@spec
    ensures final(self).trace() == old(self).trace().push(Ev::Begin { name: _name@, index: _index as int })
@fn trait RenderSink::end_layer_group
@trusted
@spec
    ensures final(self).trace() == old(self).trace().push(Ev::End)
@fn LayerPath::contains_layer
@ret r
@spec
    ensures r == on_path(self.view(), opt_str(asset), index as int)
@loop 0
    invariant
        on_path(self.view(), opt_str(asset), index as int) == (next is Some && on_path((*(next->0)).view(), opt_str(asset), index as int)),
    ensures next is None
    decreases next
@loopstart 0
    proof { lemma_view(*path, opt_str(asset), index as int, Seq::empty()); }
@fn LayerPath::contains_asset
@ret r
@spec
    ensures r == asset_on_path(self.view(), name@)
@loop 0
    invariant
        asset_on_path(self.view(), name@) == (next is Some && asset_on_path((*(next->0)).view(), name@)),
    ensures next is None
    decreases next
@loopstart 0
    proof { lemma_view(*path, None, 0, name@); }
@fn DrawData::new
@ret r
@spec
    ensures r.drw() == draw_of(*draw, alpha, geometry.start as int, geometry.end as int, frame), r.geometry == geometry
@fn Batch::push_geometry
@outline $a.last_mut().unwrap().$p = $e;
{ let __v = $e; let __p = crate::verif_render::w_last($a.len()); $a[__p].$p = __v; }
@spec
    requires old(self).wf(), geometry_start <= old(self).geometries.len()
    ensures final(self).wf(), final(self).view() == bat_geometry(old(self).view(), geometry.els(frame), transform, geometry_start as int)
@entry
    let ghost me = *self;
@exit
    proof {
        assert forall|i: int| 0 <= i < me.geometries@.len() implies #[trigger] me.piece(i) == me.view().geos[i].els by { }
        assert(self.view().geos =~= bat_geometry(me.view(), geometry.els(frame), transform, geometry_start as int).geos) by {
            assert forall|i: int| 0 <= i < me.geometries@.len() && self.geometries@[i].elements == me.geometries@[i].elements implies #[trigger] self.piece(i) == me.piece(i) by {
                assert(self.piece(i) =~= me.piece(i));
            }
            let n = me.geometries@.len() as int;
            if self.geometries@.len() == n { assert(self.piece(n - 1) =~= me.piece(n - 1) + geometry.els(frame)); }
            else { assert(self.piece(n) =~= geometry.els(frame)); }
        }
        assert(self.view().draws =~= me.view().draws);
    }
@fn Batch::push_draw
@spec
    requires old(self).wf(), geometry_start <= old(self).geometries.len()
    ensures final(self).wf(), final(self).view() == bat_draw(old(self).view(), *draw, alpha, geometry_start as int, frame)
@entry
    let ghost me = *self;
@exit
    proof { assert(self.view().geos =~= me.view().geos); assert(self.view().draws =~= bat_draw(me.view(), *draw, alpha, geometry_start as int, frame).draws); }
@fn Batch::clear
@spec
    ensures final(self).wf(), final(self).view() == bat_new()
@exit
    proof { assert(self.view().geos =~= bat_new().geos); assert(self.view().draws =~= bat_new().draws); }
@fn Batch::repeat
@outline $a.extend($b.drain($c..));
crate::verif_render::w_move_tail(&mut $a, &mut $b, $c);
@spec
    requires old(self).wf(), bat_ok(old(self).view()), scope_ok(old(self).view(), geometry_start as int, draw_start as int)
    ensures final(self).wf(), final(self).view() == bat_repeat(old(self).view(), *repeater, geometry_start as int, draw_start as int)
@entry
    let ghost me = *self;
    let ghost gs = geometry_start as int;
    let ghost ds = draw_start as int;
    let ghost b = self.view();
    let ghost tail = b.geos.skip(gs);
    let ghost dtail = b.draws.skip(ds);
    let ghost c = repeater.copies as int;
@loop 0
    invariant
        __k0 <= __n0 == self.repeat_geometries@.len(),
        self.repeat_geometries@ == me.geometries@.skip(gs), self.repeat_draws@ == me.draws@.skip(ds), self.draws@ == me.draws@.take(ds),
        self.elements@ == me.elements@, self.trim_elements@ == me.trim_elements@,
        0 <= gs <= me.geometries@.len(), c == repeater.copies,
        self.geometries@.len() == gs + __k0 * c,
        forall|x: int| 0 <= x < gs ==> #[trigger] self.geometries@[x] == me.geometries@[x],
        forall|x: int| gs <= x < self.geometries@.len() ==> #[trigger] self.geometries@[x] == rep_gd(me.geometries@[gs + (x - gs) / c], *repeater, (x - gs) % c),
    decreases __n0 - __k0
@loopstart 0
    let ghost j = __k0 - 1;
    assert((j + 1) * c == j * c + c) by(nonlinear_arith);
@loop 1
    invariant
        0 <= j < self.repeat_geometries@.len(), __k0 == j + 1, __k1 <= __n1 == repeater.copies,
        *geometry == self.repeat_geometries@[j],
        self.repeat_geometries@ == me.geometries@.skip(gs), self.repeat_draws@ == me.draws@.skip(ds), self.draws@ == me.draws@.take(ds),
        self.elements@ == me.elements@, self.trim_elements@ == me.trim_elements@,
        0 <= gs <= me.geometries@.len(), c == repeater.copies,
        self.geometries@.len() == gs + j * c + __k1,
        forall|x: int| 0 <= x < gs ==> #[trigger] self.geometries@[x] == me.geometries@[x],
        forall|x: int| gs <= x < self.geometries@.len() ==> #[trigger] self.geometries@[x] == rep_gd(me.geometries@[gs + (x - gs) / c], *repeater, (x - gs) % c),
    decreases __n1 - __k1
@loopstart 1
    proof { lemma_index_at(j, __k1 - 1, c); assert(j * c >= 0) by(nonlinear_arith) requires j >= 0, c >= 0; }
@loop 2
    invariant
        __k2 <= __n2 == repeater.copies, c == repeater.copies,
        start_alpha == repeater.start_opacity.ieee_div(100.0f64), end_alpha == repeater.end_opacity.ieee_div(100.0f64),
        delta_alpha == (if repeater.copies > 1 { end_alpha.ieee_sub(start_alpha).ieee_div(c_usize_f64(repeater.copies)) } else { 0.0f64 }),
        self.repeat_draws@ == me.draws@.skip(ds), b == me.view(), bat_ok(b), scope_ok(b, gs, ds), gs == geometry_start, dtail == b.draws.skip(ds),
        0 <= ds <= me.draws@.len(),
        self.geometries@.len() == gs + (b.geos.len() - gs) * c,
        self.elements@ == me.elements@, self.trim_elements@ == me.trim_elements@,
        forall|x: int| 0 <= x < gs ==> #[trigger] self.geometries@[x] == me.geometries@[x],
        forall|x: int| gs <= x < self.geometries@.len() ==> #[trigger] self.geometries@[x] == rep_gd(me.geometries@[gs + (x - gs) / c], *repeater, (x - gs) % c),
        drws(self.draws@) == b.draws.take(ds) + rep_draws(dtail, *repeater, gs, __k2 as int),
    decreases __n2 - __k2
@loopbefore 2
    proof { assert(drws(self.draws@) =~= b.draws.take(ds) + rep_draws(dtail, *repeater, gs, 0)); }
@loop 3
    invariant
        __k3 <= __n3 == self.repeat_draws@.len(), c == repeater.copies, i < repeater.copies, __k2 == i + 1,
        alpha == rep_alpha(*repeater, i as int), !alpha.ieee_le(0.0f64),
        self.repeat_draws@ == me.draws@.skip(ds), b == me.view(), bat_ok(b), scope_ok(b, gs, ds), gs == geometry_start, dtail == b.draws.skip(ds),
        0 <= ds <= me.draws@.len(),
        self.geometries@.len() == gs + (b.geos.len() - gs) * c,
        self.elements@ == me.elements@, self.trim_elements@ == me.trim_elements@,
        forall|x: int| 0 <= x < gs ==> #[trigger] self.geometries@[x] == me.geometries@[x],
        forall|x: int| gs <= x < self.geometries@.len() ==> #[trigger] self.geometries@[x] == rep_gd(me.geometries@[gs + (x - gs) / c], *repeater, (x - gs) % c),
        drws(self.draws@) == b.draws.take(ds) + rep_draws(dtail, *repeater, gs, i as int) + Seq::new(__k3 as nat, |k: int| rep_draw(dtail[k], *repeater, gs, i as int)),
    decreases __n3 - __k3
@loopbefore 3
    proof { assert(drws(self.draws@) =~= b.draws.take(ds) + rep_draws(dtail, *repeater, gs, i as int) + Seq::new(0, |k: int| rep_draw(dtail[k], *repeater, gs, i as int))); }
@loopstart 3
    let ghost d = dtail[__k3 - 1];
    let ghost dr0 = self.draws@;
    proof {
        assert(d == b.draws[ds + __k3 - 1] && draw.drw() == d);
        assert(gs <= d.lo <= d.hi <= b.geos.len());
        assert(self.geometries.len() <= usize::MAX);
        assert((d.lo - gs) * c >= 0 && (d.hi - d.lo) * c >= 0 && (d.lo - gs) * c + (d.hi - d.lo) * c <= (b.geos.len() - gs) * c) by(nonlinear_arith) requires gs <= d.lo <= d.hi <= b.geos.len(), c >= 0;
    }
@loopend 3
    proof {
        assert(self.draws@.last().drw() == rep_draw(d, *repeater, gs, i as int));
        assert(drws(self.draws@) =~= drws(dr0).push(rep_draw(d, *repeater, gs, i as int)));
        assert(drws(self.draws@) =~= b.draws.take(ds) + rep_draws(dtail, *repeater, gs, i as int) + Seq::new(__k3 as nat, |k: int| rep_draw(dtail[k], *repeater, gs, i as int)));
    }
@loopend 2
    proof { assert(drws(self.draws@) =~= b.draws.take(ds) + rep_draws(dtail, *repeater, gs, __k2 as int)); }
@exit
    proof {
        let o = bat_repeat(b, *repeater, gs, ds);
        lemma_repeat(b, *repeater, gs, ds);
        assert forall|x: int| 0 <= x < self.geometries@.len() implies (#[trigger] self.geometries@[x]).elements.start <= self.geometries@[x].elements.end <= self.elements@.len()
            && self.view().geos[x] == o.geos[x] by {
            if x >= gs { lemma_index(x - gs, me.geometries@.len() - gs, c); assert(self.geometries@[x] == rep_gd(me.geometries@[gs + (x - gs) / c], *repeater, (x - gs) % c)); }
        }
        assert(self.view().geos =~= o.geos);
        assert(self.view().draws =~= o.draws);
    }
@fn Batch::render
@outline $a.multiply_alpha($x)
crate::verif_spec::MulAlpha::mul_alpha($a, $x)
@spec
    requires self.wf(), bat_ok(self.view())
    ensures final(scene).trace() == old(scene).trace() + bat_evs(self.view(), 0)
@entry
    let ghost b = self.view();
@loop 0
    invariant
        __l0 == 0, __k0 <= self.draws@.len(), b == self.view(), self.wf(), bat_ok(b),
        scene.trace() == old(scene).trace() + bat_evs(b, __k0 as int),
    decreases __k0
@loopbefore 0
    proof { assert(scene.trace() =~= old(scene).trace() + bat_evs(b, self.draws@.len() as int)); }
@loopstart 0
    let ghost d = b.draws[__k0 as int];
    proof { lemma_eq_one(draw.alpha); }
@loopend 0
    proof { assert(scene.trace() =~= old(scene).trace() + bat_evs(b, __k0 as int)); }
@loop 1
    invariant
        __k0 < self.draws@.len(), b == self.view(), self.wf(), bat_ok(b), d == b.draws[__k0 as int], *draw == self.draws@[__k0 as int],
        __k1 <= __n1 == d.hi - d.lo, __s1@ == self.geometries@.subrange(d.lo, d.hi), *brush == paint(d),
        scene.trace() == old(scene).trace() + bat_evs(b, __k0 + 1) + draw_evs(b, d, __k1 as int),
    decreases __n1 - __k1
@loopbefore 1
    proof { assert(*brush == paint(d)); assert(scene.trace() =~= old(scene).trace() + bat_evs(b, __k0 + 1) + draw_evs(b, d, 0)); }
@loopend 1
    proof { assert(scene.trace() =~= old(scene).trace() + bat_evs(b, __k0 + 1) + draw_evs(b, d, __k1 as int)); }
@fn Batch::apply_trim
@outline $a.extend($b.iter().cloned());
crate::verif_spec::w_extend_els(&mut $a, &$b);
@outline $a.iter().cloned().collect()
crate::verif_render::w_collect_path(&$a)
@outline $a.segments().collect()
crate::verif_render::w_collect_segs(&$a)
@outline $a.iter().map(|s| s.arclen($x)).sum()
crate::verif_render::w_sum_arclen(&$a, $x)
@outline $a.into_iter().flatten()
crate::verif_render::w_flatten2($a)
@outline geometry.elements.len()
crate::verif_render::w_range_len(&geometry.elements)
@outline current_point != $a
!crate::verif_render::w_opt_point_eq(current_point, $a)
@spec
    requires old(self).wf(), bat_ok(old(self).view()), geometry_start <= old(self).geometries.len()
    ensures final(self).wf(), final(self).view() == bat_trim(old(self).view(), *trim, geometry_start as int)
@entry
    let ghost me = *self;
    let ghost gs = geometry_start as int;
    let ghost b = self.view();
    let ghost o = bat_trim(b, *trim, gs);
    let ghost base = cat(b, gs).len() as int;
    proof { assert(b.draws =~= o.draws); lemma_01(); if trim_all(*trim) { assert(b.geos =~= o.geos); } }
@loop 0
    invariant
        gs <= __k0 <= __n0 == self.geometries@.len() == me.geometries@.len(), gs == geometry_start, me.wf(),
        self.elements@ == me.elements@, self.draws@ == me.draws@, self.drawn_geometry == me.drawn_geometry, self.trim_elements@ == me.trim_elements@,
        self.repeat_geometries@ == me.repeat_geometries@, self.repeat_draws@ == me.repeat_draws@,
        forall|i: int| 0 <= i < gs || __k0 <= i < __n0 ==> #[trigger] self.geometries@[i] == me.geometries@[i],
        forall|i: int| gs <= i < __k0 ==> (#[trigger] self.geometries@[i]).elements.start == me.geometries@[i].elements.end && self.geometries@[i].elements.end == me.geometries@[i].elements.end && self.geometries@[i].transform == me.geometries@[i].transform,
    decreases __n0 - __k0
@loopafter 0
    proof {
        assert forall|i: int| 0 <= i < b.geos.len() implies #[trigger] self.view().geos[i] == o.geos[i] by {
            if i < gs { assert(self.geometries@[i] == me.geometries@[i]); } else { assert(self.geometries@[i].transform == me.geometries@[i].transform); assert(self.piece(i) =~= Seq::<PathEl>::empty()); }
        }
        assert(self.view().geos =~= o.geos);
    }
@loop 1
    invariant
        __k1 <= __n1 == gs, gs == geometry_start <= self.geometries@.len(), me.wf(), b == me.view(), me == *old(self),
        self.elements@ == me.elements@, self.draws@ == me.draws@, self.drawn_geometry == me.drawn_geometry, self.geometries@ == me.geometries@,
        self.repeat_geometries@ == me.repeat_geometries@, self.repeat_draws@ == me.repeat_draws@,
        self.trim_elements@ == cat(b, __k1 as int),
    decreases __n1 - __k1
@loopend 1
    proof { assert(self.trim_elements@ =~= cat(b, __k1 as int)); }
@loop 2
    invariant
        gs <= __k2 <= __n2 == self.geometries@.len() == me.geometries@.len(), gs == geometry_start, me.wf(), b == me.view(), bat_ok(b), 0.0f64.ieee_le(1.0f64), ACCURACY == 0.1f64,
        trim.norm() == Some((first, second)), !trim_all(*trim), base == cat(b, gs).len(),
        self.elements@ == me.elements@, self.draws@ == me.draws@, self.drawn_geometry == me.drawn_geometry,
        self.repeat_geometries@ == me.repeat_geometries@, self.repeat_draws@ == me.repeat_draws@,
        forall|i: int| 0 <= i < gs || __k2 <= i < __n2 ==> #[trigger] self.geometries@[i] == me.geometries@[i],
        base <= self.trim_elements@.len(), self.trim_elements@.take(base) == cat(b, gs),
        forall|i: int| gs <= i < __k2 ==> (#[trigger] self.geometries@[i]).elements.start <= self.geometries@[i].elements.end <= self.trim_elements@.len()
            && self.geometries@[i].transform == me.geometries@[i].transform
            && self.trim_elements@.subrange(self.geometries@[i].elements.start as int, self.geometries@[i].elements.end as int) == trim_els(b.geos[i].els, *trim),
        (if __k2 > gs { self.geometries@[__k2 - 1].elements.end == self.trim_elements@.len() } else { base == self.trim_elements@.len() }),
    decreases __n2 - __k2
@looptop 2
    let ghost g0 = self.geometries@;
    let ghost t0 = self.trim_elements@;
    let ghost src = b.geos[__k2 as int].els;
    proof {
        assert(g0[__k2 as int] == me.geometries@[__k2 as int]);
        assert(b.geos[__k2 as int].els == me.piece(__k2 as int));
        assert(path_ok(src));
        assert forall|p: int| 0 <= p <= t0.len() implies #[trigger] t0.subrange(p, p) == Seq::<PathEl>::empty() by { assert(t0.subrange(p, p) =~= Seq::<PathEl>::empty()); }
    }
@loopbefore 3
    let ghost rs = flat2([Some(first), second]);
@loop 3
    invariant
        __k3 <= __n3 == rs.len(), __s3@ == rs, segs@ == path_segs(src), total_length == segs_len(segs@, 0.1f64), 0.0f64.ieee_le(1.0f64), ACCURACY == 0.1f64,
        bez_els(trimmed) == cut_ranges(segs@, rs, __k3 as int),
    decreases __n3 - __k3
@loopstart 3
    let ghost acc0 = bez_els(trimmed);
    proof { lemma_cut_ranges(segs@, rs, __k3 - 1); }
@loop 4
    invariant_except_break
        (Cut { acc: bez_els(trimmed), cur: current_len, at: current_point, mv: need_move, done: false }) == cut(segs@, __k4 as int, start_len, end_len, acc0),
    invariant
        __k4 <= __n4 == segs@.len(), 0.0f64.ieee_le(1.0f64), ACCURACY == 0.1f64, path_ok(acc0),
    ensures
        bez_els(trimmed) == cut(segs@, segs@.len() as int, start_len, end_len, acc0).acc,
    decreases __n4 - __k4
@loopstart 4
    let ghost c0 = cut(segs@, __k4 - 1, start_len, end_len, acc0);
    proof {
        lemma_cut(segs@, __k4 - 1, start_len, end_len, acc0);
        if cut(segs@, __k4 as int, start_len, end_len, acc0).done { lemma_cut_done(segs@, __k4 as int, segs@.len() as int, start_len, end_len, acc0); }
    }
@loopend 2
    proof {
        let n = trim_els(src, *trim).len() as int;
        assert(self.trim_elements@ == t0 + trim_els(src, *trim));
        assert(self.trim_elements@.take(base) =~= t0.take(base));
        assert(self.trim_elements@.subrange(t0.len() as int, t0.len() + n) =~= trim_els(src, *trim));
        assert forall|i: int| gs <= i < __k2 - 1 implies self.trim_elements@.subrange((#[trigger] self.geometries@[i]).elements.start as int, self.geometries@[i].elements.end as int) == trim_els(b.geos[i].els, *trim) by {
            assert(self.geometries@[i] == g0[i]);
            assert(self.trim_elements@.subrange(g0[i].elements.start as int, g0[i].elements.end as int) =~= t0.subrange(g0[i].elements.start as int, g0[i].elements.end as int));
        }
    }
@loop 5
    invariant
        __k5 <= __n5 == gs, gs == geometry_start <= me.geometries@.len() == self.geometries@.len(), me.wf(), b == me.view(), base == cat(b, gs).len(),
        self.elements@ == me.elements@, self.draws@ == me.draws@, self.drawn_geometry == me.drawn_geometry,
        self.repeat_geometries@ == me.repeat_geometries@, self.repeat_draws@ == me.repeat_draws@,
        base <= self.trim_elements@.len(), self.trim_elements@.take(base) == cat(b, gs),
        offset == cat(b, __k5 as int).len(), offset <= base,
        forall|i: int| __k5 <= i < gs ==> #[trigger] self.geometries@[i] == me.geometries@[i],
        forall|i: int| 0 <= i < __k5 ==> (#[trigger] self.geometries@[i]).elements.start == cat(b, i).len() && self.geometries@[i].elements.end == cat(b, i + 1).len() && self.geometries@[i].transform == me.geometries@[i].transform,
        forall|i: int| gs <= i < self.geometries@.len() ==> (#[trigger] self.geometries@[i]).elements.start <= self.geometries@[i].elements.end <= self.trim_elements@.len()
            && self.geometries@[i].transform == me.geometries@[i].transform
            && self.trim_elements@.subrange(self.geometries@[i].elements.start as int, self.geometries@[i].elements.end as int) == trim_els(b.geos[i].els, *trim),
        (if self.geometries@.len() > gs { self.geometries@.last().elements.end == self.trim_elements@.len() } else { base == self.trim_elements@.len() }),
    decreases __n5 - __k5
@looptop 5
    proof { lemma_cat(b, __k5 as int, gs); assert(self.geometries@[__k5 as int] == me.geometries@[__k5 as int]); assert(self.trim_elements.len() <= usize::MAX); }
@exit
    proof {
        assert forall|i: int| 0 <= i < b.geos.len() implies (#[trigger] self.geometries@[i]).elements.start <= self.geometries@[i].elements.end <= self.elements@.len() && self.view().geos[i] == o.geos[i] by {
            if i < gs { lemma_cat(b, i, gs); assert(self.piece(i) =~= cat(b, gs).subrange(cat(b, i).len() as int, cat(b, i + 1).len() as int)); }
            assert(self.geometries@[i].transform == me.geometries@[i].transform);
        }
        assert(self.view().geos =~= o.geos);
        if gs > 0 { lemma_cat(b, gs - 1, gs); }
    }
@derive Renderer Default
@derive Batch Default
@derive GeometryData Clone
@derive DrawData Clone
@fn <Default for Renderer>::default
@ret r
@spec
    ensures r.ready()
@fn <Default for Batch>::default
@ret r
@spec
    ensures r.wf(), r.view() == bat_new()
@exit
    proof { assert(__ret.view().geos =~= bat_new().geos); assert(__ret.view().draws =~= bat_new().draws); }
@fn <Clone for GeometryData>::clone
@ret r
@spec
    ensures r == *self
@fn <Clone for DrawData>::clone
@ret r
@spec
    ensures r == *self
@fn Renderer::new
@ret r
@spec
    ensures r.ready()
@fn Renderer::compute_transform
@ret r
@spec
    ensures r == aff_mul(global_transform, layer_map(layer_set@, *layer, frame))
@loop 0
    invariant
        count <= layer_set@.len(),
        layer_map(layer_set@, *layer, frame) == chain(layer_set@, parent_index, (layer_set@.len() - count) as nat, transform, frame),
    ensures
        transform == layer_map(layer_set@, *layer, frame),
    decreases layer_set@.len() - count
@fn Renderer::render_shapes
@spec
    requires old(self).batch.wf(), bat_ok(old(self).batch.view()), shapes_ok(shapes@)
    ensures final(self).batch.wf(), final(self).batch.view() == shapes_all(old(self).batch.view(), shapes@, transform, alpha, frame), bat_ok(final(self).batch.view()), final(self).mask_elements == old(self).mask_elements
    decreases shapes@
@entry
    let ghost b0 = self.batch.view();
    let ghost all = shapes@;
    let ghost gs = self.batch.geometries@.len() as int;
    let ghost ds = self.batch.draws@.len() as int;
@loop 0
    invariant
        __k0 <= __n0 == shapes@.len(), all == shapes@, shapes_ok(all), gs == geometry_start, ds == draw_start, b0.geos.len() == gs, b0.draws.len() == ds,
        self.mask_elements == old(self).mask_elements,
        self.batch.wf(), bat_ok(self.batch.view()), scope_ok(self.batch.view(), gs, ds),
        self.batch.view() == shapes_run(b0, all, __k0 as int, transform, alpha, frame, gs, ds),
    decreases __n0 - __k0
@loopstart 0
    let ghost b = self.batch.view();
    let ghost sh = *shape;
    proof { assert(sh == all[__k0 - 1]); assert(shape_ok(all[__k0 - 1])); lemma_step(b, sh, transform, alpha, frame, gs, ds); }
@loopend 0
    proof { assert(self.batch.view() == shape_step(b, sh, transform, alpha, frame, gs, ds)); }
@fn Renderer::render_layer
@spec
    requires old(self).ready(), comp_ok(*animation), layers_ok(layer_set@), layer_ok(*layer)
    ensures final(self).ready(), final(scene).trace() == old(scene).trace() + layer_evs(*animation, layer_set@, *layer, layer_index as int, path.view(), transform, alpha, frame)
    decreases names_left(*animation, path.view()), idx_left(path.view(), opt_str(path.asset), layer_set@.len())
@entry
    let ghost tr0 = scene.trace();
    let ghost t0 = transform;
    let ghost a0 = alpha;
    let ghost c = *animation;
    let ghost set = layer_set@;
    let ghost l = *layer;
    let ghost p = path.view();
    let ghost f0 = frame;
    let ghost lt = aff_mul(transform, layer_map(set, l, frame));
    let ghost la = layer_alpha(l, a0, f0);
    let ghost fi = inst_frame(l, f0);
    let ghost head = tr0 + seq![Ev::Begin { name: l.name@, index: layer_index as int }];
    let ghost mattes = matte_evs(c, set, l, p, t0, a0, f0);
    let ghost masked = head + mattes + mask_evs(l.masks@, l.masks@.len() as int, lt, f0);
    let ghost body = masked + content_evs(c, l, p, lt, la, f0);
    proof {
        assert(p.len() > 0 && p.last().0 == opt_str(path.asset));
        assert(tr0 + Seq::<Ev>::empty() =~= tr0);
        ax_masks_len(l.masks);
        lemma_le(layer.frames.start, frame);
    }
@beforecall render_layer#0
    proof {
        lemma_names_left_push(c, p, (p.last().0, mask_index as int));
        lemma_idx_left_push(p, p.last().0, set.len(), mask_index as int);
        assert(layer_ok(set[mask_index as int]));
    }
@beforecall push_layer#1
    proof {
        let m = l.mask_layer->0;
        assert(scene.trace() =~= head + (seq![Ev::PushLayer { blend: blend_mix(peniko::Mix::Normal), alpha: 1.0f32, t: t0, shape: view_rect(c) }] + (if m.1 < set.len() && p.len() > 0 && !on_path(p, p.last().0, m.1 as int) {
                layer_evs(c, set, set[m.1 as int], m.1 as int, p.push((p.last().0, m.1 as int)), t0, a0, f0)
            } else { Seq::empty() })));
    }
@loopbefore 0
    proof { assert(scene.trace() =~= head + mattes + mask_evs(l.masks@, 0, lt, f0)); }
@loop 0
    invariant
        __k0 <= __n0 == layer.masks@.len(), l == *layer, transform == lt, f0 == frame,
        self.ready(), scene.trace() == head + mattes + mask_evs(l.masks@, __k0 as int, lt, f0),
    decreases __n0 - __k0
@loopend 0
    proof { assert(scene.trace() =~= head + mattes + mask_evs(l.masks@, __k0 as int, lt, f0)); assert(self.mask_elements@ =~= Seq::<PathEl>::empty()); }
@loop 1
    invariant
        __l1 == 0, __k1 <= asset_layers@.len(), c == *animation, p == path.view(), p.len() > 0, comp_ok(c), c.assets@.contains_key(*name), asset_layers@ == c.assets@[*name]@, layers_ok(asset_layers@), !asset_on_path(p, name@),
        transform == lt, alpha == la, frame.ieee_add(frame_delta) == fi,
        self.ready(), scene.trace() == masked + inst_evs(c, *name, __k1 as int, p, lt, la, fi),
    decreases __k1
@loopbefore 1
    proof { assert(scene.trace() =~= masked + inst_evs(c, *name, asset_layers@.len() as int, p, lt, la, fi)); }
@loopstart 1
    let ghost tr = scene.trace();
    proof {
        lemma_names_left_push(c, p, (Some(name@), __k1 as int));
        assert(layer_ok(asset_layers@[__k1 as int]));
        assert(tr =~= masked + inst_evs(c, *name, __k1 + 1, p, lt, la, fi));
        if asset_layer.is_mask { assert(tr =~= masked + inst_evs(c, *name, __k1 as int, p, lt, la, fi)); }
    }
@loopend 1
    proof { assert(scene.trace() =~= masked + inst_evs(c, *name, __k1 as int, p, lt, la, fi)); }
@loopbefore 2
    proof { assert(scene.trace() =~= body); assert(scene.trace() =~= body + pops(0)); }
@loop 2
    invariant
        __k2 <= __n2,
        self.ready(), scene.trace() == body + pops(__k2 as int),
    decreases __n2 - __k2
@loopend 2
    proof { assert(scene.trace() =~= body + pops(__k2 as int)); }
@exit
    proof { assert(scene.trace() =~= tr0 + layer_evs(c, set, l, layer_index as int, p, t0, a0, f0)); }
@fn Renderer::append
@spec
    requires old(self).ready(), comp_ok(*animation)
    ensures final(self).ready(), final(scene).trace() == old(scene).trace() + comp_evs(*animation, frame, transform, alpha)
@entry
    let ghost c = *animation;
    let ghost tr0 = scene.trace();
    let ghost head = tr0 + seq![Ev::PushClip { t: transform, shape: view_rect(c) }];
@loop 0
    invariant
        __l0 == 0, __k0 <= animation.layers@.len(), c == *animation, comp_ok(c),
        self.ready(), scene.trace() == head + top_evs(c, __k0 as int, transform, alpha, frame),
    decreases __k0
@loopbefore 0
    proof { assert(scene.trace() =~= head + top_evs(c, c.layers@.len() as int, transform, alpha, frame)); }
@loopstart 0
    let ghost tr = scene.trace();
    proof {
        assert(layer_ok(c.layers@[__k0 as int]));
        if layer.is_mask { assert(tr =~= head + top_evs(c, __k0 as int, transform, alpha, frame)); }
    }
@loopend 0
    proof { assert(scene.trace() =~= head + top_evs(c, __k0 as int, transform, alpha, frame)); }
@exit
    proof { assert(scene.trace() =~= tr0 + comp_evs(c, frame, transform, alpha)); }
@end
@append
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, crate::verif_spec::group_peniko, crate::verif_render::group_render, vstd::std_specs::hash::group_hash_axioms};
pub open spec fn opt_ref<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub open spec fn opt_str(o: Option<&str>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
impl<'a> LayerPath<'a> {
    spec fn view(&self) -> LPath decreases self {
        let me = (opt_str(self.asset), self.index as int);
        match self.outer { Some(o) => o.view().push(me), None => seq![me] }
    }
}
proof fn lemma_view(p: LayerPath<'_>, asset: Option<Seq<char>>, i: int, n: Seq<char>)
    ensures
        on_path(p.view(), asset, i) == ((opt_str(p.asset), p.index as int) == (asset, i) || (p.outer is Some && on_path((*(p.outer->0)).view(), asset, i))),
        asset_on_path(p.view(), n) == (opt_str(p.asset) == Some(n) || (p.outer is Some && asset_on_path((*(p.outer->0)).view(), n))),
{
    let me = (opt_str(p.asset), p.index as int);
    match p.outer { Some(o) => { lemma_path_push(o.view(), me, asset, i, n); }, None => { lemma_path_push(Seq::empty(), me, asset, i, n); } }
}
spec fn drws(s: Seq<DrawData>) -> Seq<Drw> { Seq::new(s.len(), |i: int| s[i].drw()) }
spec fn rep_gd(g: GeometryData, r: fixed::Repeater, i: int) -> GeometryData { GeometryData { elements: g.elements, transform: aff_mul(g.transform, r.map(i as usize)) } }
// derived
/// a Vec of a type that is not zero-sized holds at most isize::MAX elements
pub axiom fn ax_masks_len(v: Vec<Mask>) ensures v@.len() <= isize::MAX;
impl Renderer {
    /// nothing left over from an earlier use
    pub closed spec fn ready(&self) -> bool { self.mask_elements@.len() == 0 && self.batch.wf() && self.batch.view() == bat_new() }
}
impl DrawData {
    spec fn drw(&self) -> Drw { Drw { stroke: self.stroke, brush: self.brush, alpha: self.alpha, lo: self.geometry.start as int, hi: self.geometry.end as int } }
}
impl Batch {
    spec fn piece(&self, i: int) -> Seq<PathEl> { self.elements@.subrange(self.geometries@[i].elements.start as int, self.geometries@[i].elements.end as int) }
    pub closed spec fn view(&self) -> Bat {
        Bat {
            geos: Seq::new(self.geometries@.len(), |i: int| Geo { els: self.piece(i), t: self.geometries@[i].transform }),
            draws: drws(self.draws@),
            drawn: self.drawn_geometry as int,
        }
    }
    pub closed spec fn wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.geometries@.len() ==> (#[trigger] self.geometries@[i]).elements.start <= self.geometries@[i].elements.end <= self.elements@.len()
        &&& self.drawn_geometry <= self.geometries@.len()
        &&& self.drawn_geometry < self.geometries@.len() ==> self.geometries@.last().elements.end == self.elements@.len()
        &&& self.repeat_geometries@.len() == 0 && self.repeat_draws@.len() == 0 && self.trim_elements@.len() == 0
    }
}
