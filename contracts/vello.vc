@file runtime/vello.rs
@desugar argimpl
@prepend
use crate::verif_render::*;
use crate::verif_spec::*;
use crate::verif_vello::*;
use crate::runtime::render::*;
@items impl <RenderSink for Scene>
    open spec fn trace(&self) -> Seq<Ev> { scene_ops(*self).map_values(|o: SceneOp| op_ev(o)) }
@fn <RenderSink for Scene>::push_layer
@spec
@exit
    proof { assert(self.trace() =~= old(self).trace().push(Ev::PushLayer { blend: into_blend(blend), alpha, t: transform, shape: shape_v(*shape) })); }
@fn <RenderSink for Scene>::push_clip_layer
@spec
@exit
    proof { assert(self.trace() =~= old(self).trace().push(Ev::PushClip { t: transform, shape: shape_v(*shape) })); }
@fn <RenderSink for Scene>::pop_layer
@spec
@exit
    proof { assert(self.trace() =~= old(self).trace().push(Ev::Pop)); }
@fn <RenderSink for Scene>::draw
@spec
@exit
    proof { assert(self.trace() =~= old(self).trace().push(Ev::Draw { stroke: opt_ref(stroke), t: transform, brush: *brush, shape: shape_v(*shape) })); }
@fn Renderer::render_to_vello_scene
@ret r
@spec
    requires old(self).ready(), comp_ok(*animation)
    ensures final(self).ready(), r.trace() == comp_evs(*animation, frame, transform, alpha)
@exit __ret
    proof { assert(__ret.trace() =~= comp_evs(*animation, frame, transform, alpha)); }
@append
broadcast use {crate::verif_vello::ax_rule, crate::verif_vello::ax_brush, crate::verif_render::group_render};
