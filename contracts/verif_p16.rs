//! P16: any history of renders leaves the renderer as a fresh one.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::verif_render::*;
use crate::runtime::{Composition, RenderSink, Renderer};
use crate::runtime::model::*;
use kurbo::Affine;
verus! {
/// one call of `append`
pub struct Call { pub c: Composition, pub frame: f64, pub t: Affine, pub alpha: f64 }
pub open spec fn calls_ok(s: Seq<Call>) -> bool { forall|i: int| 0 <= i < s.len() ==> comp_ok((#[trigger] s[i]).c) }
/// after any history of calls, a renderer sends what a fresh one sends
pub fn p16_history<S: RenderSink>(history: &Vec<Call>, last: &Call, scratch: &mut S, used_scene: &mut S, fresh_scene: &mut S)
    requires calls_ok(history@), comp_ok(last.c), old(used_scene).trace() == old(fresh_scene).trace()
    ensures final(used_scene).trace() == final(fresh_scene).trace()
{
    let mut used = Renderer::new();
    let mut i = 0;
    while i < history.len()
        invariant calls_ok(history@), used.ready(), i <= history@.len()
        decreases history@.len() - i
    {
        let h = &history[i];
        used.append(&h.c, h.frame, h.t, h.alpha, scratch);
        i += 1;
    }
    let mut fresh = Renderer::new();
    used.append(&last.c, last.frame, last.t, last.alpha, used_scene);
    fresh.append(&last.c, last.frame, last.t, last.alpha, fresh_scene);
}
} // verus!
