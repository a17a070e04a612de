//! Reference semantics of the model, written from the property statements (no code shared with velato).
use kurbo::{Affine, BezPath, ParamCurve, ParamCurveArclen, PathEl, PathSeg, Point, Shape as _, Size, Vec2};
use peniko::Color;
use velato::model::{self as m, Tween as _, animated, fixed};

pub fn bez(u: f64, p1: f64, p2: f64) -> f64 {
    let v = 1.0 - u;
    3.0 * u * v * v * p1 + 3.0 * u * u * v * p2 + u * u * u
}

/// ordinate of the easing curve at abscissa t in (0,1)
pub fn ease(t: f64, e: &m::Easing) -> f64 {
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if bez(mid, e.o.x, e.i.x) < t {
            lo = mid
        } else {
            hi = mid
        }
    }
    bez(0.5 * (lo + hi), e.o.y, e.i.y)
}

pub trait Mix: Sized + Clone {
    fn comps(&self) -> Vec<f64>;
    fn build(c: &[f64]) -> Self;
    fn mix(a: &Self, b: &Self, t: f64, e: &m::Easing) -> Self {
        if t <= 0.0 {
            a.clone()
        } else if t >= 1.0 {
            b.clone()
        } else {
            let y = ease(t, e);
            let v: Vec<f64> = a.comps().iter().zip(b.comps()).map(|(a, b)| a + (b - a) * y).collect();
            Self::build(&v)
        }
    }
}
impl Mix for f64 {
    fn comps(&self) -> Vec<f64> {
        vec![*self]
    }
    fn build(c: &[f64]) -> Self {
        c[0]
    }
}
impl Mix for Point {
    fn comps(&self) -> Vec<f64> {
        vec![self.x, self.y]
    }
    fn build(c: &[f64]) -> Self {
        Point { x: c[0], y: c[1] }
    }
}
impl Mix for Vec2 {
    fn comps(&self) -> Vec<f64> {
        vec![self.x, self.y]
    }
    fn build(c: &[f64]) -> Self {
        Vec2 { x: c[0], y: c[1] }
    }
}
impl Mix for Size {
    fn comps(&self) -> Vec<f64> {
        vec![self.width, self.height]
    }
    fn build(c: &[f64]) -> Self {
        Size { width: c[0], height: c[1] }
    }
}
impl Mix for Color {
    fn comps(&self) -> Vec<f64> {
        self.components.iter().map(|c| *c as f64).collect()
    }
    fn build(c: &[f64]) -> Self {
        Color::new([c[0] as f32, c[1] as f32, c[2] as f32, c[3] as f32])
    }
}

pub fn easing_of(t: &m::Time) -> m::Easing {
    m::Easing {
        o: t.out_tangent.unwrap_or(m::EasingHandle { x: 0.0, y: 0.0 }),
        i: t.in_tangent.unwrap_or(m::EasingHandle { x: 1.0, y: 1.0 }),
    }
}

/// (from, to, fraction, easing, hold)
pub fn lookup(times: &[m::Time], frame: f64) -> Option<(usize, usize, f64, m::Easing, bool)> {
    let n = times.len();
    if n == 0 {
        return None;
    }
    let mut i = 0;
    for (k, t) in times.iter().enumerate() {
        if t.frame <= frame {
            i = k;
        }
    }
    let j = (i + 1).min(n - 1);
    let e = easing_of(&times[i]);
    let w = if frame <= times[i].frame || i == j {
        0.0
    } else {
        (frame - times[i].frame) / (times[j].frame - times[i].frame)
    };
    Some((i, j, w, e, times[i].hold))
}

pub fn animated_at<T: Mix + m::Tween>(a: &m::Animated<T>, frame: f64) -> Option<T> {
    let (i, j, w, e, hold) = lookup(&a.times, frame)?;
    Some(T::mix(&a.values[i], &a.values[j], if hold { 0.0 } else { w }, &e))
}

/// Scalars are evaluated by velato itself: their own properties (P01, P02) use `animated_at`.
pub fn value<T: m::Tween + Default>(v: &m::Value<T>, frame: f64) -> T {
    v.evaluate(frame)
}
pub fn value_or<T: m::Tween>(v: &m::Value<T>, frame: f64, d: T) -> T {
    v.evaluate_or(frame, d)
}

fn rot(p: (f64, f64), a: f64) -> (f64, f64) {
    (p.0 * a.cos() - p.1 * a.sin(), p.0 * a.sin() + p.1 * a.cos())
}
pub fn affine_of(f: impl Fn((f64, f64)) -> (f64, f64)) -> Affine {
    let o = f((0.0, 0.0));
    let x = f((1.0, 0.0));
    let y = f((0.0, 1.0));
    Affine::new([x.0 - o.0, x.1 - o.1, y.0 - o.0, y.1 - o.1, o.0, o.1])
}
/// a then b in matrix notation a * b (b applied first)
pub fn mul(a: Affine, b: Affine) -> Affine {
    let [a0, a1, a2, a3, a4, a5] = a.as_coeffs();
    let [b0, b1, b2, b3, b4, b5] = b.as_coeffs();
    Affine::new([
        a0 * b0 + a2 * b1,
        a1 * b0 + a3 * b1,
        a0 * b2 + a2 * b3,
        a1 * b2 + a3 * b3,
        a0 * b4 + a2 * b5 + a4,
        a1 * b4 + a3 * b5 + a5,
    ])
}
const RAD: f64 = std::f64::consts::PI / 180.0;

pub fn transform_anim(t: &animated::Transform, frame: f64) -> Affine {
    let anchor = value(&t.anchor, frame);
    let pos = match &t.position {
        animated::Position::Value(v) => value(v, frame),
        animated::Position::SplitValues((x, y)) => Point::new(value(x, frame), value(y, frame)),
    };
    let r = value(&t.rotation, frame) * RAD;
    let s = value(&t.scale, frame);
    let sk = value(&t.skew, frame) * RAD;
    let ax = value(&t.skew_angle, frame) * RAD;
    affine_of(|p| {
        let p = (p.0 - anchor.x, p.1 - anchor.y);
        let p = (p.0 * s.x / 100.0, p.1 * s.y / 100.0);
        let p = if sk == 0.0 {
            p
        } else {
            let q = rot(p, ax);
            let q = (q.0 + sk.tan() * q.1, q.1);
            rot(q, -ax)
        };
        let p = rot(p, r);
        (p.0 + pos.x, p.1 + pos.y)
    })
}
pub fn transform(t: &m::Transform, frame: f64) -> Affine {
    match t {
        m::Transform::Fixed(a) => *a,
        m::Transform::Animated(t) => transform_anim(t, frame),
    }
}

pub fn spline_path(pts: &[Point], closed: bool) -> Vec<PathEl> {
    let mut out = vec![];
    if pts.is_empty() {
        return out;
    }
    out.push(PathEl::MoveTo(pts[0]));
    let n = pts.len() / 3;
    let mut seg = |a: usize, b: usize| {
        let (p, q) = (pts[3 * a], pts[3 * b]);
        let o = pts[3 * a + 2];
        let i = pts[3 * b + 1];
        let c0 = Point::new(p.x + o.x, p.y + o.y);
        let c1 = Point::new(q.x + i.x, q.y + i.y);
        if c0 == p && c1 == q { out.push(PathEl::LineTo(q)) } else { out.push(PathEl::CurveTo(c0, c1, q)) }
    };
    for k in 1..n {
        seg(k - 1, k);
    }
    if closed && n > 0 {
        seg(n - 1, 0);
        out.push(PathEl::ClosePath);
    }
    out
}
/// The fraction is eased by velato itself: the easing of paths has its own property (P28, `spline_indep`).
pub fn spline(s: &animated::Spline, frame: f64) -> Vec<PathEl> {
    spline_by(s, frame, |w, e| 0.0f64.tween(&1.0, w, e))
}
pub fn spline_indep(s: &animated::Spline, frame: f64) -> Vec<PathEl> {
    spline_by(s, frame, |w, e| if w <= 0.0 { 0.0 } else if w >= 1.0 { 1.0 } else { ease(w, e) })
}
fn spline_by(s: &animated::Spline, frame: f64, eased: impl Fn(f64, &m::Easing) -> f64) -> Vec<PathEl> {
    let Some((i, j, w, e, hold)) = lookup(&s.times, frame) else { return vec![] };
    let w = if hold { 0.0 } else { eased(w, &e) };
    let (Some(a), Some(b)) = (s.values.get(i), s.values.get(j)) else { return vec![] };
    let to = a.end.as_ref().unwrap_or(&b.start);
    let pts: Vec<Point> = a
        .start
        .iter()
        .zip(to)
        .map(|(p, q)| Point::new(p.x + (q.x - p.x) * w, p.y + (q.y - p.y) * w))
        .collect();
    spline_path(&pts, s.is_closed)
}

pub fn star(s: &animated::Star, frame: f64) -> Vec<PathEl> {
    let c = value(&s.position, frame);
    let n = value(&s.points, frame).round();
    if n < 1.0 {
        return vec![];
    }
    let n = n as usize;
    let rotn = (value(&s.rotation, frame) - 90.0) * RAD;
    let (or, oo) = (value(&s.outer_radius, frame), value(&s.outer_roundness, frame) / 100.0);
    let (ir, io) = (value(&s.inner_radius, frame), value(&s.inner_roundness, frame) / 100.0);
    let count = if s.is_polygon { n } else { 2 * n };
    let step = std::f64::consts::TAU / count as f64;
    // vertex, in control, out control, curved
    let v: Vec<(Point, Point, Point, bool)> = (0..count)
        .map(|i| {
            let outer = s.is_polygon || i % 2 == 0;
            let (r, o) = if outer { (or, oo) } else { (ir, io) };
            let a = rotn + i as f64 * step;
            let p = Point::new(c.x + r * a.cos(), c.y + r * a.sin());
            if o.abs() <= 1e-6 {
                (p, p, p, false)
            } else {
                let t = r * (step / 2.0).tan() * o * 4.0 / 3.0;
                let d = Vec2::new(-a.sin() * t, a.cos() * t);
                (p, p - d, p + d, true)
            }
        })
        .collect();
    let mut out = vec![PathEl::MoveTo(v[0].0)];
    let straight = |a: &(Point, Point, Point, bool), b: &(Point, Point, Point, bool)| {
        (a.2.x - a.0.x).abs() < 1e-6 && (a.2.y - a.0.y).abs() < 1e-6 && (b.1.x - b.0.x).abs() < 1e-6 && (b.1.y - b.0.y).abs() < 1e-6
    };
    for i in 1..count {
        if straight(&v[i - 1], &v[i]) {
            out.push(PathEl::LineTo(v[i].0))
        } else {
            out.push(PathEl::CurveTo(v[i - 1].2, v[i].1, v[i].0))
        }
    }
    if !straight(&v[count - 1], &v[0]) {
        out.push(PathEl::CurveTo(v[count - 1].2, v[0].1, v[0].0));
    }
    out.push(PathEl::ClosePath);
    out
}

pub fn geometry(g: &m::Geometry, frame: f64) -> Vec<PathEl> {
    match g {
        m::Geometry::Fixed(v) => v.clone(),
        m::Geometry::Rect(r) => {
            let (p, s, c) = (value(&r.position, frame), value(&r.size, frame), value(&r.corner_radius, frame));
            kurbo::RoundedRect::new(p.x - s.width / 2.0, p.y - s.height / 2.0, p.x + s.width / 2.0, p.y + s.height / 2.0, c)
                .path_elements(0.1)
                .collect()
        }
        m::Geometry::Ellipse(e) => {
            let (p, s) = (value(&e.position, frame), value(&e.size, frame));
            kurbo::Ellipse::new(p, (s.width / 2.0, s.height / 2.0), 0.0).path_elements(0.1).collect()
        }
        m::Geometry::Spline(s) => spline(s, frame),
        m::Geometry::Star(s) => star(s, frame),
    }
}

pub fn stroke(s: &m::Stroke, frame: f64) -> fixed::Stroke {
    match s {
        m::Stroke::Fixed(s) => s.clone(),
        m::Stroke::Animated(a) => stroke_anim(a, frame),
    }
}
pub fn stroke_anim(a: &animated::Stroke, frame: f64) -> fixed::Stroke {
    let mut s = kurbo::Stroke::new(value(&a.width, frame));
    s.start_cap = a.cap;
    s.end_cap = a.cap;
    s.join = a.join;
    if let Some(l) = a.miter_limit {
        s.miter_limit = l;
    }
    s
}

pub fn stops_anim(s: &animated::ColorStops, frame: f64) -> fixed::ColorStops {
    let mut out = fixed::ColorStops::default();
    let Some((i, j, w, e, hold)) = lookup(&s.frames, frame) else { return out };
    let w = if hold { 0.0 } else { w };
    let (a, b) = (&s.values[i], &s.values[j]);
    if a.len() < 5 * s.count || b.len() < 5 * s.count {
        return out;
    }
    for k in 0..s.count {
        let c: Vec<f64> = (0..5).map(|q| m::Tween::tween(&a[5 * k + q], &b[5 * k + q], w, &e)).collect();
        out.push(peniko::ColorStop::from((c[0] as f32, Color::new([c[1] as f32, c[2] as f32, c[3] as f32, c[4] as f32]))));
    }
    out
}
pub fn stops(s: &m::ColorStops, frame: f64) -> fixed::ColorStops {
    match s {
        m::ColorStops::Fixed(s) => s.clone(),
        m::ColorStops::Animated(a) => stops_anim(a, frame),
    }
}
pub fn gradient(g: &animated::Gradient, frame: f64) -> peniko::Gradient {
    let (a, b) = (value(&g.start_point, frame), value(&g.end_point, frame));
    let mut r = if g.is_radial {
        peniko::Gradient::new_radial(a, ((b.x - a.x).powi(2) + (b.y - a.y).powi(2)).sqrt() as f32)
    } else {
        peniko::Gradient::new_linear(a, b)
    };
    r.stops = stops(&g.stops, frame);
    r
}
pub fn brush_anim(b: &animated::Brush, frame: f64) -> fixed::Brush {
    match b {
        animated::Brush::Solid(v) => fixed::Brush::Solid(value_or(v, frame, Color::TRANSPARENT)),
        animated::Brush::Gradient(g) => fixed::Brush::Gradient(gradient(g, frame)),
    }
}
pub fn brush(b: &m::Brush, frame: f64) -> fixed::Brush {
    match b {
        m::Brush::Fixed(b) => b.clone(),
        m::Brush::Animated(a) => brush_anim(a, frame),
    }
}
pub fn with_alpha(b: &fixed::Brush, alpha: f64) -> fixed::Brush {
    let f = |c: Color| Color::new([c.components[0], c.components[1], c.components[2], (c.components[3] as f64 * alpha) as f32]);
    match b {
        fixed::Brush::Solid(c) => fixed::Brush::Solid(f(*c)),
        fixed::Brush::Gradient(g) => {
            let mut g = g.clone();
            for s in g.stops.iter_mut() {
                s.color.components[3] = (s.color.components[3] as f64 * alpha) as f32;
            }
            fixed::Brush::Gradient(g)
        }
        b => b.clone(),
    }
}

pub fn trim_value(t: &m::Trim, frame: f64) -> fixed::Trim {
    match t {
        m::Trim::Fixed(t) => t.clone(),
        m::Trim::Animated(a) => fixed::Trim { start: value(&a.start, frame), end: value(&a.end, frame), offset: value(&a.offset, frame) },
    }
}
/// kept intervals in fractions (their own property is P05), empty: nothing kept
pub fn trim_ranges(t: &fixed::Trim) -> Vec<(f64, f64)> {
    match t.normalized() {
        None => vec![],
        Some((a, b)) => Some(a).into_iter().chain(b).collect(),
    }
}
pub fn trim_path(els: &[PathEl], ranges: &[(f64, f64)]) -> Vec<PathEl> {
    const ACC: f64 = 0.1;
    let path: BezPath = els.iter().cloned().collect();
    let segs: Vec<(PathSeg, f64)> = path.segments().map(|s| (s, s.arclen(ACC))).collect();
    let total: f64 = segs.iter().map(|s| s.1).sum();
    let mut out = vec![];
    if segs.is_empty() || total <= 0.0 {
        return out;
    }
    for &(a, b) in ranges {
        let (a, b) = (a * total, b * total);
        let mut at = 0.0;
        let mut first = true;
        let mut pen: Option<Point> = None;
        for (s, len) in &segs {
            // a piece that does not continue the one before begins a new sub-path
            if pen != Some(s.start()) {
                first = true;
            }
            pen = Some(s.end());
            let (s0, s1) = (at, at + len);
            at = s1;
            if s1 < a - 1e-9 {
                continue;
            }
            if s0 > b + 1e-9 {
                break;
            }
            let acc = ACC.max(len * 1e-9);
            let ta = if s0 < a { s.inv_arclen(a - s0, acc).clamp(0.0, 1.0) } else { 0.0 };
            let tb = if s1 > b { s.inv_arclen(b - s0, acc).clamp(0.0, 1.0) } else { 1.0 };
            if tb > ta + 1e-9 {
                let q = s.subsegment(ta..tb);
                if first {
                    out.push(PathEl::MoveTo(q.start()));
                    first = false;
                }
                out.push(match q {
                    PathSeg::Line(l) => PathEl::LineTo(l.p1),
                    PathSeg::Quad(q) => PathEl::QuadTo(q.p1, q.p2),
                    PathSeg::Cubic(c) => PathEl::CurveTo(c.p1, c.p2, c.p3),
                });
            }
        }
    }
    out
}

pub fn repeater(r: &m::Repeater, frame: f64) -> fixed::Repeater {
    match r {
        m::Repeater::Fixed(r) => r.clone(),
        m::Repeater::Animated(a) => repeater_anim(a, frame),
    }
}
pub fn repeater_anim(a: &animated::Repeater, frame: f64) -> fixed::Repeater {
    fixed::Repeater {
        copies: value(&a.copies, frame).round().max(0.0) as usize,
        offset: value(&a.offset, frame),
        anchor_point: value(&a.anchor_point, frame),
        position: value(&a.position, frame),
        rotation: value(&a.rotation, frame),
        scale: value(&a.scale, frame),
        start_opacity: value(&a.start_opacity, frame),
        end_opacity: value(&a.end_opacity, frame),
    }
}
pub fn repeater_transform(r: &fixed::Repeater, i: usize) -> Affine {
    let t = r.offset + i as f64;
    let s = ((r.scale.x / 100.0).powf(t), (r.scale.y / 100.0).powf(t));
    affine_of(|p| {
        let p = (p.0 - r.anchor_point.x, p.1 - r.anchor_point.y);
        let p = (p.0 * s.0, p.1 * s.1);
        let p = rot(p, t * r.rotation * RAD);
        (p.0 + r.anchor_point.x + t * r.position.x, p.1 + r.anchor_point.y + t * r.position.y)
    })
}

// ------------------------------------------------------------------ rendering
#[derive(Clone, Debug)]
pub enum Cmd {
    Layer { blend: peniko::BlendMode, alpha: f32, tf: Affine, path: Vec<PathEl> },
    Clip { tf: Affine, path: Vec<PathEl> },
    Pop,
    Draw { stroke: Option<fixed::Stroke>, tf: Affine, brush: fixed::Brush, path: Vec<PathEl> },
    Begin { name: String, index: usize },
    End,
}

#[derive(Clone, Debug)]
struct Piece {
    els: Vec<PathEl>,
    tf: Affine,
}
#[derive(Clone, Debug)]
struct Paint {
    stroke: Option<fixed::Stroke>,
    brush: fixed::Brush,
    alpha: f64,
    at: (usize, usize),
}
#[derive(Default)]
struct Scene {
    pieces: Vec<Piece>,
    paints: Vec<Paint>,
    sealed: usize,
}
impl Scene {
    fn shapes(&mut self, shapes: &[m::Shape], tf: Affine, alpha: f64, frame: f64) {
        let p0 = self.pieces.len();
        let d0 = self.paints.len();
        for s in shapes {
            match s {
                m::Shape::Group(sub, gt) => {
                    let (gtf, ga) = match gt {
                        Some(g) => (mul(tf, transform(&g.transform, frame)), alpha * value(&g.opacity, frame) / 100.0),
                        None => (tf, alpha),
                    };
                    self.shapes(sub, gtf, ga, frame);
                }
                m::Shape::Geometry(g) => {
                    let els = geometry(g, frame);
                    let n = self.pieces.len();
                    if n > p0 && n > self.sealed && crate::cmp::affine_eq(&self.pieces[n - 1].tf, &tf, 1e-12) {
                        self.pieces[n - 1].els.extend(els);
                    } else {
                        self.pieces.push(Piece { els, tf });
                    }
                }
                m::Shape::Draw(d) => {
                    let n = self.pieces.len();
                    self.paints.push(Paint {
                        stroke: d.stroke.as_ref().map(|s| stroke(s, frame)),
                        brush: brush(&d.brush, frame),
                        alpha: alpha * value(&d.opacity, frame) / 100.0,
                        at: (p0, n),
                    });
                    self.sealed = n;
                }
                m::Shape::Trim(t) => {
                    let t = trim_value(t, frame);
                    let r = trim_ranges(&t);
                    if r.len() == 1 && r[0].0 <= 1e-9 && r[0].1 >= 1.0 - 1e-9 {
                        continue;
                    }
                    for p in &mut self.pieces[p0..] {
                        p.els = trim_path(&p.els, &r);
                    }
                }
                m::Shape::Repeater(r) => {
                    let r = repeater(r, frame);
                    let pieces = self.pieces.split_off(p0);
                    let paints = self.paints.split_off(d0);
                    for p in &pieces {
                        for i in 0..r.copies {
                            self.pieces.push(Piece { els: p.els.clone(), tf: mul(p.tf, repeater_transform(&r, i)) });
                        }
                    }
                    for i in 0..r.copies {
                        let d = if r.copies > 1 { (r.end_opacity - r.start_opacity) * i as f64 / r.copies as f64 } else { 0.0 };
                        let a = (r.start_opacity + d) / 100.0;
                        if a > 0.0 {
                            for q in &paints {
                                let mut q = q.clone();
                                q.alpha *= a;
                                q.at = (p0 + (q.at.0 - p0) * r.copies, p0 + (q.at.1 - p0) * r.copies);
                                self.paints.push(q);
                            }
                        }
                    }
                    self.sealed = self.pieces.len();
                }
            }
        }
    }
}

pub struct Render<'a> {
    pub comp: &'a velato::Composition,
    pub out: Vec<Cmd>,
}
impl<'a> Render<'a> {
    pub fn run(comp: &'a velato::Composition, frame: f64, tf: Affine, alpha: f64) -> Vec<Cmd> {
        let mut r = Render { comp, out: vec![] };
        let full = r.full();
        r.out.push(Cmd::Clip { tf, path: full });
        for (i, l) in comp.layers.iter().enumerate().rev() {
            if !l.is_mask {
                r.layer(&comp.layers, i, i, vec![(None, i)], tf, alpha, frame);
            }
        }
        r.out.push(Cmd::Pop);
        r.out
    }
    fn full(&self) -> Vec<PathEl> {
        let (w, h) = (self.comp.width as f64, self.comp.height as f64);
        kurbo::Rect::new(0.0, 0.0, w, h).path_elements(0.1).collect()
    }
    fn layer(&mut self, set: &[m::Layer], ix: usize, report: usize, path: Vec<(Option<String>, usize)>, tf: Affine, alpha: f64, frame: f64) {
        let l = &set[ix];
        if !(l.frames.start <= frame && frame < l.frames.end) {
            return;
        }
        self.out.push(Cmd::Begin { name: l.name.clone(), index: report });
        let ltf = mul(tf, chain(set, ix, frame));
        if let Some((mode, mi)) = l.mask_layer {
            let full = self.full();
            self.out.push(Cmd::Layer { blend: peniko::Mix::Normal.into(), alpha: 1.0, tf, path: full.clone() });
            let asset = path.last().unwrap().0.clone();
            if mi < set.len() && !path.contains(&(asset.clone(), mi)) {
                let mut p2 = path.clone();
                p2.push((asset, mi));
                self.layer(set, mi, mi, p2, tf, alpha, frame);
            }
            self.out.push(Cmd::Layer { blend: mode, alpha: 1.0, tf, path: full });
        }
        let a = alpha * value(&l.opacity, frame) / 100.0;
        for k in &l.masks {
            self.out.push(Cmd::Clip { tf: ltf, path: geometry(&k.geometry, frame) });
        }
        match &l.content {
            m::Content::None => {}
            m::Content::Instance { name, .. } => {
                if let Some(ls) = self.comp.assets.get(name) {
                    if !path.iter().any(|p| p.0.as_ref() == Some(name)) {
                        let f2 = (frame - l.start_frame) / l.stretch;
                        for i in (0..ls.len()).rev() {
                            if !ls[i].is_mask {
                                let mut p2 = path.clone();
                                p2.push((Some(name.clone()), i));
                                self.layer(ls, i, i, p2, ltf, a, f2);
                            }
                        }
                    }
                }
            }
            m::Content::Shape(shapes) => {
                let mut sc = Scene::default();
                sc.shapes(shapes, ltf, a, frame);
                for p in sc.paints.iter().rev() {
                    for q in &sc.pieces[p.at.0..p.at.1] {
                        self.out.push(Cmd::Draw { stroke: p.stroke.clone(), tf: q.tf, brush: with_alpha(&p.brush, p.alpha), path: q.els.clone() });
                    }
                }
            }
        }
        for _ in &l.masks {
            self.out.push(Cmd::Pop);
        }
        if l.mask_layer.is_some() {
            self.out.push(Cmd::Pop);
            self.out.push(Cmd::Pop);
        }
        self.out.push(Cmd::End);
    }
}
/// product of the parent chain (outermost first); a cyclic chain is cut after every layer was seen once
pub fn chain(set: &[m::Layer], ix: usize, frame: f64) -> Affine {
    let mut t = transform(&set[ix].transform, frame);
    let mut p = set[ix].parent;
    let mut n = 0;
    while let Some(i) = p {
        if i >= set.len() || n >= set.len() {
            break;
        }
        t = mul(transform(&set[i].transform, frame), t);
        p = set[i].parent;
        n += 1;
    }
    t
}
pub fn chain_is_cyclic(set: &[m::Layer], ix: usize) -> bool {
    let mut p = set[ix].parent;
    let mut n = 0;
    while let Some(i) = p {
        if i >= set.len() {
            return false;
        }
        n += 1;
        if n > set.len() {
            return true;
        }
        p = set[i].parent;
    }
    false
}
