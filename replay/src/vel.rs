//! P27: the vello adapter against calls made on a scene by hand.
use crate::generate::{self as g, Cfg};
use crate::props::{describe, everything, render};
use crate::refm::Cmd;
use crate::rng::Rng;
use kurbo::{Affine, PathEl, Point, Rect, Shape};
use peniko::{BlendMode, Compose, Fill, Mix};
use vello::Scene;
use velato::RenderSink;

/// what a scene encodes, bit for bit
fn key(s: &Scene) -> Vec<String> {
    let e = s.encoding();
    let bits = |x: &[f32]| x.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
    let patches: Vec<_> = e
        .resources
        .patches
        .iter()
        .map(|p| match p {
            vello_encoding::Patch::Ramp { draw_data_offset, stops, extend } => format!("ramp {draw_data_offset} {stops:?} {extend:?}"),
            _ => "other".into(),
        })
        .collect();
    vec![
        format!("path tags {:?}", e.path_tags.iter().map(|t| t.0).collect::<Vec<_>>()),
        format!("path data {:?}", e.path_data),
        format!("draw tags {:?}", e.draw_tags.iter().map(|t| t.0).collect::<Vec<_>>()),
        format!("draw data {:?}", e.draw_data),
        format!("transforms {:?}", e.transforms.iter().map(|t| (bits(&t.matrix), bits(&t.translation))).collect::<Vec<_>>()),
        format!("styles {:?}", e.styles.iter().map(|t| (t.flags_and_miter_limit, t.line_width.to_bits())).collect::<Vec<_>>()),
        format!("resources {:?} {:?}", patches, e.resources.color_stops),
        format!("counts {} {} {} {}", e.n_paths, e.n_path_segments, e.n_clips, e.n_open_clips),
    ]
}
fn same(got: &Scene, want: &Scene) -> Result<(), String> {
    for (a, b) in key(got).iter().zip(&key(want)) {
        if a != b {
            let cut = |s: &str| s.chars().take(400).collect::<String>();
            return Err(format!("the scene encodes {}, expected {}", cut(a), cut(b)));
        }
    }
    Ok(())
}
fn by_hand(cmds: &[Cmd], s: &mut Scene) {
    for c in cmds {
        match c {
            Cmd::Layer { blend, alpha, tf, path } => s.push_layer(Fill::NonZero, *blend, *alpha, *tf, &path.as_slice()),
            Cmd::Clip { tf, path } => s.push_clip_layer(Fill::NonZero, *tf, &path.as_slice()),
            Cmd::Pop => s.pop_layer(),
            Cmd::Draw { stroke: Some(k), tf, brush, path } => s.stroke(k, *tf, brush, None, &path.as_slice()),
            Cmd::Draw { stroke: None, tf, brush, path } => s.fill(Fill::NonZero, *tf, brush, None, &path.as_slice()),
            Cmd::Begin { .. } | Cmd::End => {}
        }
    }
}
fn sink_calls(r: &mut Rng) -> Result<(), String> {
    let (mut a, mut b) = (Scene::new(), Scene::new());
    fn go<S: Shape>(r: &mut Rng, a: &mut Scene, b: &mut Scene, shape: &S, depth: &mut usize, log: &mut Vec<String>) {
        let tf = g::root_tf(r);
        let alpha = [0.0f32, 0.25, 0.5, 1.0][r.below(4)];
        match r.below(6) {
            0 => {
                let mix = [Mix::Normal, Mix::Multiply, Mix::Screen, Mix::Luminosity][r.below(4)];
                log.push(format!("push_layer {mix:?} {alpha} {tf:?}"));
                RenderSink::push_layer(a, mix, alpha, tf, shape);
                b.push_layer(Fill::NonZero, mix, alpha, tf, shape);
                *depth += 1;
            }
            1 => {
                let blend = BlendMode::new(Mix::Normal, [Compose::SrcIn, Compose::SrcOut, Compose::SrcOver, Compose::Plus][r.below(4)]);
                log.push(format!("push_layer {blend:?} {alpha} {tf:?}"));
                RenderSink::push_layer(a, blend, alpha, tf, shape);
                b.push_layer(Fill::NonZero, blend, alpha, tf, shape);
                *depth += 1;
            }
            2 => {
                log.push(format!("push_clip_layer {tf:?}"));
                RenderSink::push_clip_layer(a, tf, shape);
                b.push_clip_layer(Fill::NonZero, tf, shape);
                *depth += 1;
            }
            3 if *depth > 0 => {
                log.push("pop_layer".into());
                RenderSink::pop_layer(a);
                b.pop_layer();
                *depth -= 1;
            }
            k => {
                let frame = g::frame(r);
                let brush = velato::model::Brush::Animated(g::brush_anim(r, true, true)).evaluate(1.0, frame).into_owned();
                if k % 2 == 0 {
                    let mut stroke = velato::model::Stroke::Animated(g::stroke_anim(r, true)).evaluate(frame).into_owned();
                    if r.chance(1, 4) {
                        stroke = stroke.with_dashes(1.0, [3.0, 2.0]);
                    }
                    log.push(format!("draw {stroke:?} {tf:?} {brush:?}"));
                    RenderSink::draw(a, Some(&stroke), tf, &brush, shape);
                    b.stroke(&stroke, tf, &brush, None, shape);
                } else {
                    log.push(format!("draw {tf:?} {brush:?}"));
                    RenderSink::draw(a, None, tf, &brush, shape);
                    b.fill(Fill::NonZero, tf, &brush, None, shape);
                }
            }
        }
    }
    let mut depth = 0;
    let mut log = vec![];
    for i in 0..6 {
        let (x, y) = (r.range(-9, 9) as f64, r.range(-9, 9) as f64);
        match r.below(4) {
            0 => go(r, &mut a, &mut b, &Rect::new(-3.0, 1.0, x, y), &mut depth, &mut log),
            1 => go(r, &mut a, &mut b, &kurbo::Circle::new(Point::new(2.0, y), 3.0), &mut depth, &mut log),
            2 => go(r, &mut a, &mut b, &Vec::<PathEl>::new().as_slice(), &mut depth, &mut log),
            _ => {
                let p = g::fixed_path(r, true);
                go(r, &mut a, &mut b, &p.as_slice(), &mut depth, &mut log)
            }
        }
        if r.chance(1, 3) {
            RenderSink::begin_layer_group(&mut a, "layer", i);
            RenderSink::end_layer_group(&mut a);
        }
    }
    same(&a, &b).map_err(|e| format!("{e}; after {}", log.join("; ")))
}
pub fn p27(r: &mut Rng, _: u64) -> Result<(), String> {
    if r.chance(1, 2) {
        return sink_calls(r);
    }
    let comp = g::composition(r, &Cfg { max_layers: 4, ..everything() });
    let tf = g::root_tf(r);
    let f = g::frame(r);
    let alpha = [1.0, 0.5, 0.0][r.below(3)];
    let mut used = velato::Renderer::new();
    if r.chance(1, 3) {
        let other = g::composition(r, &Cfg { max_layers: 2, ..everything() });
        used.render_to_vello_scene(&other, g::frame(r), Affine::IDENTITY, 1.0);
    }
    let got = used.render_to_vello_scene(&comp, f, tf, alpha);
    let mut want = Scene::new();
    by_hand(&render(&comp, f, tf, alpha), &mut want);
    same(&got, &want).map_err(|e| format!("{e}; frame {f}, root {tf:?}, alpha {alpha}, {}", describe(&comp)))
}
