//! Generation of models.
use crate::rng::Rng;
use kurbo::{Affine, PathEl, Point, Size, Vec2};
use peniko::Color;
use velato::model::{self as m, animated, fixed};

/// features the generator may use
#[derive(Clone, Copy, Default)]
pub struct Cfg {
    pub anim: bool,
    pub parents: bool,
    pub parent_cycles: bool,
    pub masks: bool,
    pub mattes: bool,
    pub instances: bool,
    pub ref_cycles: bool,
    pub windows: bool,
    pub opacity: bool,
    pub groups: bool,
    pub trims: bool,
    pub repeaters: bool,
    pub gradients: bool,
    pub strokes: bool,
    pub curves: bool,
    pub layer_tf: bool,
    pub max_layers: usize,
}

pub trait Arb: m::Tween + Sized {
    fn arb(r: &mut Rng, mag: i64) -> Self;
}
impl Arb for f64 {
    fn arb(r: &mut Rng, mag: i64) -> Self {
        r.num(mag)
    }
}
impl Arb for Point {
    fn arb(r: &mut Rng, mag: i64) -> Self {
        Point::new(r.num(mag), r.num(mag))
    }
}
impl Arb for Vec2 {
    fn arb(r: &mut Rng, mag: i64) -> Self {
        Vec2::new(r.num(mag), r.num(mag))
    }
}
impl Arb for Size {
    fn arb(r: &mut Rng, mag: i64) -> Self {
        Size::new(r.pos(mag), r.pos(mag))
    }
}
impl Arb for Color {
    fn arb(r: &mut Rng, _: i64) -> Self {
        Color::new([r.unit() as f32, r.unit() as f32, r.unit() as f32, r.pick(&[1.0, 0.5, r.clone().unit() as f32])])
    }
}

pub fn handle(r: &mut Rng) -> m::EasingHandle {
    let x = match r.below(4) {
        0 => 0.0,
        1 => 1.0,
        _ => r.unit(),
    };
    let y = match r.below(5) {
        0 => 0.0,
        1 => 1.0,
        2 => r.num(2),
        _ => r.unit(),
    };
    m::EasingHandle { x, y }
}
pub fn times(r: &mut Rng, n: usize, dup: bool) -> Vec<m::Time> {
    let mut t = r.range(-4, 8) as f64;
    (0..n)
        .map(|_| {
            let cur = t;
            t += match r.below(5) {
                0 if dup => 0.0,
                1 => 0.5 + r.unit(),
                2 => r.range(1, 20) as f64,
                _ => r.range(1, 5) as f64,
            };
            m::Time {
                frame: if cur == 0.0 { 0.0 } else { cur },
                in_tangent: if r.chance(1, 2) { Some(handle(r)) } else { None },
                out_tangent: if r.chance(1, 2) { Some(handle(r)) } else { None },
                hold: r.chance(1, 4),
            }
        })
        .collect()
}
/// a frame near the keyframes
pub fn frame_for(r: &mut Rng, ts: &[m::Time]) -> f64 {
    if ts.is_empty() {
        return r.num(10);
    }
    let i = r.below(ts.len());
    match r.below(6) {
        0 => ts[i].frame,
        1 => ts[0].frame - r.pos(5),
        2 => ts[ts.len() - 1].frame + r.pos(5),
        3 if i + 1 < ts.len() => (ts[i].frame + ts[i + 1].frame) / 2.0,
        4 => ts[ts.len() - 1].frame,
        _ => ts[0].frame + r.unit() * (ts[ts.len() - 1].frame - ts[0].frame),
    }
}
pub fn animated_value<T: Arb>(r: &mut Rng, mag: i64, dup: bool) -> m::Animated<T> {
    let n = match r.below(8) {
        0 => 1,
        1 => 2,
        2 if r.chance(1, 6) => 7 + if r.chance(1, 12) { r.below(300) } else { r.below(40) },
        _ => 1 + r.below(6),
    };
    m::Animated { times: times(r, n, dup), values: (0..n).map(|_| T::arb(r, mag)).collect() }
}
pub fn val<T: Arb>(r: &mut Rng, mag: i64, anim: bool) -> m::Value<T> {
    if anim && r.chance(1, 2) { m::Value::Animated(animated_value(r, mag, false)) } else { m::Value::Fixed(T::arb(r, mag)) }
}
/// keyframed or fixed number from a given list of values
pub fn val_of<T: m::Tween>(r: &mut Rng, anim: bool, mut f: impl FnMut(&mut Rng) -> T) -> m::Value<T> {
    if anim && r.chance(1, 2) {
        let n = 1 + r.below(4);
        let mut t = times(r, n, false);
        for t in &mut t {
            // stay inside the hull of the values
            for h in [&mut t.in_tangent, &mut t.out_tangent] {
                if let Some(h) = h {
                    h.y = h.y.clamp(0.0, 1.0)
                }
            }
        }
        m::Value::Animated(m::Animated { times: t, values: (0..n).map(|_| f(r)).collect() })
    } else {
        m::Value::Fixed(f(r))
    }
}
pub fn percent(r: &mut Rng, anim: bool) -> m::Value<f64> {
    val_of(r, anim, |r| match r.below(5) {
        0 => 100.0,
        1 => 50.0,
        2 => r.pick(&[25.0, 0.0, 120.0]),
        _ => (r.unit() * 100.0).round(),
    })
}
pub fn position(r: &mut Rng, anim: bool) -> animated::Position {
    if r.chance(1, 3) {
        animated::Position::SplitValues((val(r, 50, anim), val(r, 50, anim)))
    } else {
        animated::Position::Value(val(r, 50, anim))
    }
}
pub fn transform_anim(r: &mut Rng, anim: bool) -> animated::Transform {
    let skewed = r.chance(1, 2);
    animated::Transform {
        anchor: val(r, 30, anim),
        position: position(r, anim),
        rotation: val(r, 360, anim),
        scale: val(r, 200, anim),
        skew: if skewed { val_of(r, anim, |r| r.num(60)) } else { m::Value::Fixed(0.0) },
        skew_angle: val(r, 180, anim),
    }
}
/// small set of transforms, identity often
pub fn transform(r: &mut Rng, anim: bool) -> m::Transform {
    match r.below(6) {
        0 | 1 => m::Transform::Fixed(Affine::IDENTITY),
        2 => m::Transform::Fixed(Affine::translate((r.range(-3, 3) as f64, r.range(-3, 3) as f64))),
        3 => m::Transform::Fixed(Affine::new([0.0, 1.0, -1.0, 0.0, r.range(-2, 2) as f64, 0.0])),
        4 => m::Transform::Fixed(Affine::new([2.0, 0.0, 0.0, 1.0, 0.0, 1.0])),
        _ if anim => m::Transform::Animated(transform_anim(r, true)),
        _ => m::Transform::Fixed(Affine::new([1.0, 0.5, 0.0, 1.0, 3.0, 0.0])),
    }
}
pub fn color(r: &mut Rng) -> Color {
    Color::new([r.below(5) as f32 / 4.0, r.below(5) as f32 / 4.0, r.below(5) as f32 / 4.0, r.pick(&[1.0, 1.0, 0.5, 0.25])])
}
pub fn points(r: &mut Rng, n: usize) -> Vec<Point> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(Point::new(r.num(20), r.num(20)));
        for _ in 0..2 {
            v.push(if r.chance(1, 2) { Point::ZERO } else { Point::new(r.num(5), r.num(5)) });
        }
    }
    v
}
pub fn spline(r: &mut Rng) -> animated::Spline {
    let k = if r.chance(1, 16) { 4 + r.below(12) } else { 1 + r.below(3) };
    let n = if r.chance(1, 16) { 5 + r.below(20) } else { r.below(5) };
    animated::Spline {
        is_closed: r.chance(1, 2),
        times: times(r, k, false),
        // the last keyframe leads nowhere, so it has no end of its own
        values: (0..k)
            .map(|i| animated::SplineKeyframeValues { start: points(r, n), end: if i + 1 < k && r.chance(1, 3) { Some(points(r, n)) } else { None } })
            .collect(),
    }
}
/// few points make control points at practically infinity
pub fn star(r: &mut Rng, anim: bool, few: bool) -> animated::Star {
    let lo = if few { 1.0 } else { 3.0 };
    let round = |r: &mut Rng| if r.chance(1, 2) { 0.0 } else { r.range(1, 130) as f64 };
    animated::Star {
        is_polygon: r.chance(1, 2),
        direction: r.pick(&[1.0, 1.0, 3.0]),
        position: val(r, 20, anim),
        inner_radius: val_of(r, anim, |r| r.range(if few { 0 } else { 1 }, 20) as f64),
        inner_roundness: val_of(r, anim, round),
        outer_radius: val_of(r, anim, |r| r.range(1, 40) as f64),
        outer_roundness: val_of(r, anim, round),
        rotation: val(r, 180, anim),
        points: val_of(r, anim, |r| r.pick(&[0.0, 0.4, lo, lo + 1.0, 3.0, 4.0, 5.0, 5.25, 6.75, 7.0, 12.0, -3.0])),
    }
}
pub fn fixed_path(r: &mut Rng, curves: bool) -> Vec<PathEl> {
    let mut v = vec![];
    let p = |r: &mut Rng| Point::new(r.range(-10, 10) as f64, r.range(-10, 10) as f64);
    for _ in 0..1 + r.below(2) {
        v.push(PathEl::MoveTo(p(r)));
        for _ in 0..if r.chance(1, 24) { 4 + r.below(12) } else { 1 + r.below(3) } {
            v.push(match r.below(if curves { 3 } else { 1 }) {
                1 => PathEl::QuadTo(p(r), p(r)),
                2 => PathEl::CurveTo(p(r), p(r), p(r)),
                _ => PathEl::LineTo(p(r)),
            });
        }
        if r.chance(1, 2) {
            v.push(PathEl::ClosePath);
        }
    }
    v
}
pub fn geometry(r: &mut Rng, c: &Cfg) -> m::Geometry {
    match if c.curves { r.below(6) } else { 5 } {
        0 => m::Geometry::Rect(animated::Rect {
            is_ccw: r.chance(1, 3),
            position: val(r, 20, c.anim),
            size: val(r, 30, c.anim),
            corner_radius: val_of(r, c.anim, |r| r.pick(&[0.0, 1.0, 2.5, if c.trims { 0.5 } else { 12.0 }])),
        }),
        1 => m::Geometry::Ellipse(animated::Ellipse { is_ccw: r.chance(1, 3), position: val(r, 20, c.anim), size: val(r, 30, c.anim) }),
        2 => m::Geometry::Spline(spline(r)),
        3 => m::Geometry::Star(star(r, c.anim && !c.trims, !c.trims)),
        _ => m::Geometry::Fixed(fixed_path(r, c.curves)),
    }
}
pub fn raw_stops(r: &mut Rng, count: usize) -> Vec<f64> {
    (0..count)
        .flat_map(|i| [i as f64 / count.max(1) as f64 + r.unit() * 0.1, r.unit(), r.unit(), r.unit(), r.unit()])
        .collect()
}
pub fn stops_anim(r: &mut Rng) -> animated::ColorStops {
    let n = 1 + r.below(4);
    let count = if r.chance(1, 16) { 6 + r.below(20) } else { r.below(6) };
    let mut values: Vec<Vec<f64>> = (0..n).map(|_| raw_stops(r, count)).collect();
    if r.chance(1, 8) {
        let i = r.below(n);
        let k = r.below(values[i].len() + 1);
        values[i].truncate(k);
    }
    animated::ColorStops { frames: times(r, n, false), values, count }
}
pub fn gradient(r: &mut Rng, anim: bool) -> animated::Gradient {
    let stops = if anim && r.chance(1, 2) {
        m::ColorStops::Animated(stops_anim(r))
    } else {
        let mut s = fixed::ColorStops::default();
        for i in 0..if r.chance(1, 16) { 4 + r.below(8) } else { 1 + r.below(3) } {
            s.push(peniko::ColorStop::from((i as f32 / 12.0, color(r))));
        }
        m::ColorStops::Fixed(s)
    };
    animated::Gradient { is_radial: r.chance(1, 2), start_point: val(r, 20, anim), end_point: val(r, 20, anim), stops }
}
pub fn stroke_anim(r: &mut Rng, anim: bool) -> animated::Stroke {
    animated::Stroke {
        width: val_of(r, anim, |r| r.pick(&[1.0, 2.0, 5.0, 9.0, 0.25, 0.0])),
        join: r.pick(&[kurbo::Join::Bevel, kurbo::Join::Miter, kurbo::Join::Round]),
        miter_limit: if r.chance(1, 2) { Some(r.range(1, 9) as f64) } else { None },
        cap: r.pick(&[kurbo::Cap::Butt, kurbo::Cap::Round, kurbo::Cap::Square]),
    }
}
pub fn brush_anim(r: &mut Rng, anim: bool, grads: bool) -> animated::Brush {
    if grads && r.chance(1, 3) {
        animated::Brush::Gradient(gradient(r, anim))
    } else {
        animated::Brush::Solid(val_of(r, anim, |r| color(r)))
    }
}
pub fn draw(r: &mut Rng, c: &Cfg) -> m::Draw {
    m::Draw {
        stroke: if c.strokes && r.chance(1, 2) {
            let s = stroke_anim(r, c.anim);
            Some(if s.is_fixed() { m::Stroke::Fixed(crate::refm::stroke_anim(&s, 0.0)) } else { m::Stroke::Animated(s) })
        } else {
            None
        },
        brush: {
            let b = brush_anim(r, c.anim, c.gradients);
            if c.anim { m::Brush::Animated(b) } else { m::Brush::Fixed(crate::refm::brush_anim(&b, 0.0)) }
        },
        opacity: if c.opacity { percent(r, c.anim) } else { m::Value::Fixed(100.0) },
    }
}
pub fn trim_anim(r: &mut Rng, anim: bool) -> animated::Trim {
    let pc = |r: &mut Rng| match r.below(6) {
        0 => 0.0,
        1 => 100.0,
        2 => 50.0,
        3 => r.range(-20, 140) as f64,
        _ => r.unit() * 100.0,
    };
    let start = val_of(r, anim, pc);
    let end = if r.chance(1, 6) { start.clone() } else { val_of(r, anim, pc) };
    animated::Trim { start, end, offset: val_of(r, anim, |r| r.pick(&[0.0, 90.0, -90.0, 180.0, 400.0, 33.0, -725.0])) }
}
pub fn repeater_anim(r: &mut Rng, anim: bool) -> animated::Repeater {
    animated::Repeater {
        copies: val_of(r, anim, |r| r.pick(&[0.0, 1.0, 2.0, 3.0, 4.0, 2.4, 2.6])),
        offset: val_of(r, anim, |r| r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0])),
        anchor_point: val(r, 10, anim),
        position: val(r, 20, anim),
        rotation: val(r, 90, anim),
        scale: val_of(r, anim, |r| Vec2::new(r.range(10, 200) as f64, r.range(10, 200) as f64)),
        start_opacity: percent(r, anim),
        end_opacity: val_of(r, anim, |r| r.pick(&[100.0, 50.0, 0.0, 20.0])),
    }
}
pub fn shapes(r: &mut Rng, c: &Cfg, depth: usize) -> Vec<m::Shape> {
    let n = if depth == 0 && !c.repeaters && r.chance(1, 40) { 7 + r.below(14) } else { 1 + r.below(if depth == 0 { 6 } else { 4 }) };
    let mut v = vec![];
    for _ in 0..n {
        match r.below(10) {
            0..=2 => v.push(m::Shape::Draw(draw(r, c))),
            3..=5 => v.push(m::Shape::Geometry(geometry(r, c))),
            6 | 7 if c.groups && depth < 4 => {
                let sub = shapes(r, c, depth + 1);
                let gt = if r.chance(1, 2) {
                    None
                } else {
                    Some(m::GroupTransform {
                        transform: transform(r, c.anim),
                        opacity: if c.opacity { percent(r, c.anim) } else { m::Value::Fixed(100.0) },
                    })
                };
                v.push(m::Shape::Group(sub, gt));
            }
            8 if c.trims => {
                let t = trim_anim(r, c.anim);
                v.push(m::Shape::Trim(if t.is_fixed() {
                    let at = |v: &m::Value<f64>| crate::refm::value(v, 0.0);
                    m::Trim::Fixed(fixed::Trim { start: at(&t.start), end: at(&t.end), offset: at(&t.offset) })
                } else {
                    m::Trim::Animated(t)
                }));
            }
            9 if c.repeaters => {
                let t = repeater_anim(r, c.anim);
                v.push(m::Shape::Repeater(if c.anim { m::Repeater::Animated(t) } else { m::Repeater::Fixed(crate::refm::repeater_anim(&t, 0.0)) }));
            }
            _ => v.push(m::Shape::Geometry(geometry(r, c))),
        }
    }
    if depth == 0 && c.repeaters && r.chance(1, 200) {
        // many copies of a little
        v = shapes(r, &Cfg { repeaters: false, ..*c }, 3);
        let mut t = repeater_anim(r, c.anim);
        t.copies = m::Value::Fixed((5 + if r.chance(1, 10) { r.below(150) } else { r.below(20) }) as f64);
        t.scale = m::Value::Fixed(Vec2::new(r.pick(&[100.0, 99.0, 101.0]), r.pick(&[100.0, 99.0, 101.0])));
        v.push(m::Shape::Repeater(if c.anim { m::Repeater::Animated(t) } else { m::Repeater::Fixed(crate::refm::repeater_anim(&t, 0.0)) }));
    }
    if depth == 0 && c.groups && r.chance(1, 40) {
        // one group in another, many times
        for _ in 0..5 + r.below(40) {
            let gt = r.chance(1, 3).then(|| m::GroupTransform { transform: transform(r, false), opacity: if c.opacity { m::Value::Fixed(r.pick(&[100.0, 100.0, 50.0])) } else { m::Value::Fixed(100.0) } });
            v = vec![m::Shape::Group(v, gt)];
            if r.chance(1, 12) {
                v.push(m::Shape::Draw(draw(r, c)));
            }
        }
    }
    v
}
pub fn content(r: &mut Rng, c: &Cfg, assets: &[String]) -> m::Content {
    if c.instances && r.chance(1, 2) {
        let name = if assets.is_empty() || r.chance(1, 8) { "missing".into() } else { r.pick(assets) };
        m::Content::Instance { name, time_remap: None }
    } else if r.chance(1, 8) {
        m::Content::None
    } else {
        m::Content::Shape(shapes(r, c, 0))
    }
}
pub fn layers(r: &mut Rng, c: &Cfg, prefix: &str, assets: &[String]) -> Vec<m::Layer> {
    // now and then a long list, with chains of parents through most of it
    let long = (c.parents || c.mattes) && c.max_layers > 2 && r.chance(1, 24);
    let n = if long { 9 + if r.chance(1, 10) { r.below(120) } else { r.below(32) } } else { 1 + r.below(c.max_layers.max(1)) };
    let (up, gap) = (r.chance(1, 2), 1 + r.below(2));
    let mut v: Vec<m::Layer> = (0..n)
        .map(|i| m::Layer {
            name: format!("{prefix}{i}"),
            transform: if c.layer_tf { transform(r, c.anim) } else { m::Transform::Fixed(Affine::IDENTITY) },
            opacity: if c.opacity { percent(r, c.anim) } else { m::Value::Fixed(100.0) },
            frames: if c.windows {
                let a = r.range(-4, 6) as f64 + r.pick(&[0.0, 0.0, 0.5]);
                a..a + r.range(0, 12) as f64 + r.pick(&[0.0, 0.0, 0.25])
            } else {
                -1000.0..1000.0
            },
            stretch: if c.windows { r.pick(&[1.0, 1.0, 2.0, 0.5, -1.0, 4.0, -0.5]) } else { 1.0 },
            start_frame: if c.windows { r.range(-8, 8) as f64 / 2.0 } else { 0.0 },
            masks: if c.masks && r.chance(1, 3) {
                (0..if r.chance(1, 12) { 3 + r.below(6) } else { 1 + r.below(2) })
                    .map(|_| m::Mask { mode: Default::default(), geometry: geometry(r, c), opacity: m::Value::Fixed(100.0) })
                    .collect()
            } else {
                vec![]
            },
            content: content(r, c, assets),
            ..Default::default()
        })
        .collect();
    if long && c.layer_tf {
        for l in &mut v {
            l.transform = m::Transform::Fixed(Affine::new([1.0, 0.0, r.pick(&[0.0, 0.5]), 1.0, r.num(9), r.num(9)]));
        }
    }
    for i in 0..n {
        if c.parents && if long { r.chance(11, 12) } else { r.chance(1, 2) } {
            let p = match long {
                true if up => i + gap,
                true => i.wrapping_sub(gap),
                false => r.below(n + 2),
            };
            v[i].parent = Some(p);
            if !c.parent_cycles && crate::refm::chain_is_cyclic(&v, i) {
                v[i].parent = if i > 0 { Some(i - 1) } else { None };
                if crate::refm::chain_is_cyclic(&v, i) {
                    v[i].parent = None;
                }
            }
        }
        if c.mattes && if long { r.chance(5, 6) } else { r.chance(1, 3) } {
            let k = if long && i > 0 && r.chance(3, 4) {
                i - 1
            } else if c.ref_cycles { r.below(n + 2) } else if i > 0 { r.below(i) } else { n + r.below(3) };
            if k < n && k != i {
                v[k].is_mask = r.chance(3, 4);
            }
            let b: peniko::BlendMode = r.pick(&[peniko::Compose::SrcIn.into(), peniko::Compose::SrcOut.into(), peniko::Mix::Multiply.into()]);
            v[i].mask_layer = Some((b, k));
        }
    }
    v
}
pub fn composition(r: &mut Rng, c: &Cfg) -> velato::Composition {
    let mut comp = velato::Composition {
        frames: 0.0..60.0,
        frame_rate: 30.0,
        width: 1 + r.below(500),
        height: 1 + r.below(500),
        ..Default::default()
    };
    // now and then a long chain of compositions, one inside the other
    let chain = c.instances && r.chance(1, 32);
    let k = if chain { 5 + r.below(36) } else if c.instances { r.below(4) } else { 0 };
    // the empty string is a name as well
    let empty = if k > 0 && r.chance(1, 8) { r.below(k) } else { k };
    let names: Vec<String> = (0..k).map(|i| if i == empty { String::new() } else { format!("asset{i}") }).collect();
    for i in 0..k {
        let visible: Vec<String> = if c.ref_cycles { names.clone() } else { names[..i].to_vec() };
        let mut ls = layers(r, &Cfg { max_layers: if chain { 1 } else { 2 }, ..*c }, &format!("a{i}_"), if chain { &[] } else { &visible });
        if chain && (i > 0 || c.ref_cycles && r.chance(1, 2)) && r.chance(31, 32) {
            let name = names[if i > 0 { i - 1 } else { k - 1 }].clone();
            ls[0] = m::Layer { frames: -1000.0..1000.0, is_mask: false, content: m::Content::Instance { name, time_remap: None }, ..ls[0].clone() };
        }
        comp.assets.insert(names[i].clone(), ls);
    }
    comp.layers = layers(r, c, "l", &names);
    if chain {
        let at = r.below(comp.layers.len());
        comp.layers[at].content = m::Content::Instance { name: names[k - 1].clone(), time_remap: None };
    }
    comp
}
pub fn frame(r: &mut Rng) -> f64 {
    match r.below(3) {
        0 => r.range(-6, 14) as f64,
        1 => r.range(-24, 56) as f64 / 4.0,
        _ => r.range(0, 6) as f64,
    }
}
pub fn root_tf(r: &mut Rng) -> Affine {
    match r.below(3) {
        0 => Affine::IDENTITY,
        1 => Affine::new([2.0, 0.0, 0.0, 2.0, 5.0, 7.0]),
        _ => Affine::new([1.0, 0.5, -0.5, 1.0, r.num(5), r.num(5)]),
    }
}
