//! Recording sink
use crate::refm::Cmd;
use kurbo::{Affine, Shape};
use velato::model::fixed;
#[derive(Default)]
pub struct Rec(pub Vec<Cmd>);
impl velato::RenderSink for Rec {
    fn push_layer(&mut self, blend: impl Into<peniko::BlendMode>, alpha: f32, transform: Affine, shape: &impl Shape) {
        self.0.push(Cmd::Layer { blend: blend.into(), alpha, tf: transform, path: shape.path_elements(0.1).collect() });
    }
    fn push_clip_layer(&mut self, transform: Affine, shape: &impl Shape) {
        self.0.push(Cmd::Clip { tf: transform, path: shape.path_elements(0.1).collect() });
    }
    fn pop_layer(&mut self) {
        self.0.push(Cmd::Pop);
    }
    fn draw(&mut self, stroke: Option<&fixed::Stroke>, transform: Affine, brush: &fixed::Brush, shape: &impl Shape) {
        self.0.push(Cmd::Draw { stroke: stroke.cloned(), tf: transform, brush: brush.clone(), path: shape.path_elements(0.1).collect() });
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.0.push(Cmd::Begin { name: name.to_string(), index });
    }
    fn end_layer_group(&mut self) {
        self.0.push(Cmd::End);
    }
}
