@file runtime/render.rs
@prepend
use crate::verif_p08::*;
@fn Batch::render
@outline $a.multiply_alpha($x)
crate::verif_spec::MulAlpha::mul_alpha($a, $x)
@spec
    requires self.wf(), bat_ok(self.view())
    ensures grown(old(scene).trace(), final(scene).trace(), Seq::empty())
@entry
    let ghost tr0 = scene.trace();
    proof { lemma_grown_refl(tr0); assert(bat_ok(self.view())); }
@loop 0
    invariant
        __l0 == 0, __k0 <= self.draws@.len(), self.wf(), bat_ok(self.view()),
        grown(tr0, scene.trace(), Seq::empty()),
    decreases __k0
@loopstart 0
    proof { assert(self.view().draws[__k0 as int] == draw.drw()); assert(draw.geometry.start <= draw.geometry.end <= self.geometries@.len()); }
@loop 1
    invariant
        __k1 <= __n1 == __s1@.len(), self.wf(), __s1@ == self.geometries@.subrange(draw.geometry.start as int, draw.geometry.end as int), draw.geometry.start <= draw.geometry.end <= self.geometries@.len(),
        grown(tr0, scene.trace(), Seq::empty()),
    decreases __n1 - __k1
@beforecall draw
    let ghost tr1 = scene.trace();
@aftercall draw
    proof { lemma_grown_push(tr0, tr1, Seq::empty(), scene.trace().last()); assert(scene.trace() =~= tr1.push(scene.trace().last())); }
@fn Renderer::render_layer
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires old(self).ready(), comp_ok(*animation), layers_ok(layer_set@), layer_ok(*layer)
    ensures final(self).ready(), grown(old(scene).trace(), final(scene).trace(), Seq::empty())
@entry
    let ghost tr0 = scene.trace();
    let ghost g = Seq::<bool>::empty().push(false);
    let ghost nm = if layer.mask_layer is Some { 2int } else { 0int };
    let ghost all = layer.masks@.len() + nm;
    proof {
        lemma_grown_refl(tr0); ax_masks_len(layer.masks); lemma_layers(g, 0); lemma_layers(g, 1);
        assert forall|i: int| 0 <= i < layer_set@.len() implies layer_ok(#[trigger] layer_set@[i]) by { }
        assert forall|a: Seq<Ev>, st: Seq<bool>| #[trigger] grown(tr0, a, st) implies forall|e: Ev| bracket(st, e) is Some ==> grown(tr0, #[trigger] a.push(e), bracket(st, e)->0) by {
            assert forall|e: Ev| bracket(st, e) is Some implies grown(tr0, #[trigger] a.push(e), bracket(st, e)->0) by { lemma_grown_push(tr0, a, st, e); }
        }
        assert forall|a: Seq<Ev>, b: Seq<Ev>, st: Seq<bool>| #[trigger] grown(tr0, a, st) && #[trigger] grown(a, b, Seq::empty()) implies grown(tr0, b, st) by { lemma_grown_call(tr0, a, b, st); }
        assert forall|st: Seq<bool>, k: bool| (#[trigger] st.push(k)).drop_last() == st by { assert(st.push(k).drop_last() =~= st); }
    }
@loop 0
    invariant
        __k0 <= __n0 == layer.masks@.len(), self.ready(), nm == (if layer.mask_layer is Some { 2int } else { 0int }),
        forall|a: Seq<Ev>, st: Seq<bool>| #[trigger] grown(tr0, a, st) ==> forall|e: Ev| bracket(st, e) is Some ==> grown(tr0, #[trigger] a.push(e), bracket(st, e)->0),
        grown(tr0, scene.trace(), with_layers(g, nm + __k0)),
    decreases __n0 - __k0
@loopend 0
    proof { lemma_layers(g, nm + __k0 - 1); assert(self.mask_elements@ =~= Seq::<PathEl>::empty()); }
@loop 1
    invariant
        __l1 == 0, __k1 <= asset_layers@.len(), comp_ok(*animation), layers_ok(asset_layers@), self.ready(),
        forall|a: Seq<Ev>, b: Seq<Ev>, st: Seq<bool>| #[trigger] grown(tr0, a, st) && #[trigger] grown(a, b, Seq::empty()) ==> grown(tr0, b, st),
        grown(tr0, scene.trace(), with_layers(g, all)),
    decreases __k1
@loopstart 1
    proof { assert(layer_ok(asset_layers@[__k1 as int])); }
@loop 2
    invariant
        __k2 <= __n2 <= all, self.ready(),
        grown(tr0, scene.trace(), with_layers(g, all - __k2)),
    decreases __n2 - __k2
@looptop 2
    let ghost tr2 = scene.trace();
@loopend 2
    proof { lemma_layers(g, all - __k2); lemma_close(tr0, tr2, with_layers(g, all - __k2)); }
@loopafter 2
    proof { lemma_layers(g, all - __n2); if __n2 < all { lemma_layers(g, all - __n2 - 1); } }
@beforecall end_layer_group
    proof { lemma_layers(g, 0); lemma_close(tr0, scene.trace(), Seq::empty()); }
@fn Renderer::append
@spec
    requires old(self).ready(), comp_ok(*animation)
    ensures final(self).ready(),
        // the clip to the composition's bounds first, its pop last, everything between balanced by itself
        grown(old(scene).trace().push(Ev::PushClip { t: transform, shape: view_rect(*animation) }), final(scene).trace().drop_last(), Seq::empty()),
        final(scene).trace().last() == Ev::Pop,
        grown(old(scene).trace(), final(scene).trace(), Seq::empty()),
@entry
    let ghost tr0 = scene.trace();
    let ghost tr1 = tr0.push(Ev::PushClip { t: transform, shape: view_rect(*animation) });
    proof { lemma_grown_refl(tr1); assert forall|i: int| 0 <= i < animation.layers@.len() implies layer_ok(#[trigger] animation.layers@[i]) by { } }
@loop 0
    invariant
        __l0 == 0, __k0 <= animation.layers@.len(), comp_ok(*animation), self.ready(),
        grown(tr1, scene.trace(), Seq::empty()),
    decreases __k0
@looptop 0
    let ghost tr2 = scene.trace();
    proof { assert(layer_ok(animation.layers@[__k0 - 1])); }
@loopend 0
    proof { if grown(tr2, scene.trace(), Seq::empty()) { lemma_grown_call(tr1, tr2, scene.trace(), Seq::empty()); } }
@beforecall pop_layer
    let ghost tr3 = scene.trace();
    proof {
        lemma_grown_refl(tr0);
        lemma_open(tr0, tr0, Seq::empty(), tr1.last(), true);
        assert(tr1 =~= tr0.push(tr1.last()));
        lemma_grown_call(tr0, tr1, tr3, Seq::<bool>::empty().push(true));
        lemma_close(tr0, tr3, Seq::empty());
        assert(tr3.push(Ev::Pop).drop_last() =~= tr3);
    }
@end
