//! vello::Scene: the trusted contracts of the methods the adapter calls, and the commands they stand for.
#![cfg(feature = "vello")]
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_render::*;
use kurbo::{Affine, Shape};
use peniko::{BlendMode, Fill};
verus! {
// vello::Scene, trusted: what its methods record
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExScene(vello::Scene);
#[verifier::external_type_specification]
pub struct ExFill(peniko::Fill);
pub enum SceneOp {
    Layer { rule: peniko::Fill, blend: peniko::BlendMode, alpha: f32, t: Affine, shape: ShapeV },
    Clip { rule: peniko::Fill, t: Affine, shape: ShapeV },
    Pop,
    Fill { rule: peniko::Fill, t: Affine, brush: peniko::Brush, brush_t: Option<Affine>, shape: ShapeV },
    Stroke { stroke: kurbo::Stroke, t: Affine, brush: peniko::Brush, brush_t: Option<Affine>, shape: ShapeV },
    Other(int),
}
/// what the scene has been told so far
pub uninterp spec fn scene_ops(s: vello::Scene) -> Seq<SceneOp>;
/// an operation that is not one the renderer asks for
pub uninterp spec fn op_other(o: SceneOp) -> Ev;
/// the command an operation stands for
pub open spec fn op_ev(o: SceneOp) -> Ev {
    match o {
        SceneOp::Layer { rule, blend, alpha, t, shape } if rule is NonZero => Ev::PushLayer { blend, alpha, t, shape },
        SceneOp::Clip { rule, t, shape } if rule is NonZero => Ev::PushClip { t, shape },
        SceneOp::Pop => Ev::Pop,
        SceneOp::Fill { rule, t, brush, brush_t: None, shape } if rule is NonZero => Ev::Draw { stroke: None, t, brush, shape },
        SceneOp::Stroke { stroke, t, brush, brush_t: None, shape } => Ev::Draw { stroke: Some(stroke), t, brush, shape },
        _ => op_other(o),
    }
}
/// the fill rule `s.into()`, the brush `b.into()`
pub uninterp spec fn into_rule<S>(s: S) -> peniko::Fill;
pub uninterp spec fn into_brush<B>(b: B) -> peniko::Brush;
pub broadcast axiom fn ax_rule(f: peniko::Fill) ensures #[trigger] into_rule::<peniko::Fill>(f) == f;
pub broadcast axiom fn ax_brush(b: &peniko::Brush) ensures #[trigger] into_brush::<&peniko::Brush>(b) == *b;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExStyleRef<'a>(peniko::StyleRef<'a>);
pub assume_specification [vello::Scene::new] () -> (r: vello::Scene) ensures scene_ops(r) == Seq::<SceneOp>::empty();
pub assume_specification [vello::Scene::pop_layer] (s: &mut vello::Scene) ensures scene_ops(*final(s)) == scene_ops(*old(s)).push(SceneOp::Pop);
pub assume_specification<'a> [vello::Scene::push_layer] (s: &mut vello::Scene, style: impl Into<peniko::StyleRef<'a>>, blend: impl Into<BlendMode>, alpha: f32, transform: Affine, clip: &impl Shape)
    ensures scene_ops(*final(s)) == scene_ops(*old(s)).push(SceneOp::Layer { rule: into_rule(style), blend: into_blend(blend), alpha, t: transform, shape: shape_v(*clip) });
pub assume_specification<'a> [vello::Scene::push_clip_layer] (s: &mut vello::Scene, style: impl Into<peniko::StyleRef<'a>>, transform: Affine, clip: &impl Shape)
    ensures scene_ops(*final(s)) == scene_ops(*old(s)).push(SceneOp::Clip { rule: into_rule(style), t: transform, shape: shape_v(*clip) });
pub assume_specification<'b> [vello::Scene::fill] (s: &mut vello::Scene, style: Fill, transform: Affine, brush: impl Into<peniko::BrushRef<'b>>, brush_transform: Option<Affine>, shape: &impl Shape)
    ensures scene_ops(*final(s)) == scene_ops(*old(s)).push(SceneOp::Fill { rule: style, t: transform, brush: into_brush(brush), brush_t: brush_transform, shape: shape_v(*shape) });
pub assume_specification<'b> [vello::Scene::stroke] (s: &mut vello::Scene, style: &kurbo::Stroke, transform: Affine, brush: impl Into<peniko::BrushRef<'b>>, brush_transform: Option<Affine>, shape: &impl Shape)
    ensures scene_ops(*final(s)) == scene_ops(*old(s)).push(SceneOp::Stroke { stroke: *style, t: transform, brush: into_brush(brush), brush_t: brush_transform, shape: shape_v(*shape) });
}
