//! One bounded check per property: (rng, iteration) -> Err(description of the failing input and the difference)
use crate::cmp::{self, feq, View};
use crate::generate::{self as g, Arb, Cfg};
use crate::refm::{self, Cmd, Mix};
use crate::rec::Rec;
use crate::rng::Rng;
use kurbo::{Affine, PathEl, Point, Size, Vec2};
use peniko::Color;
use velato::model::{self as m, animated, fixed};
use velato::{Composition, Renderer};

type R = Result<(), String>;
macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

pub fn render(c: &Composition, frame: f64, tf: Affine, alpha: f64) -> Vec<Cmd> {
    let mut r = Renderer::new();
    let mut s = Rec::default();
    r.append(c, frame, tf, alpha, &mut s);
    s.0
}
fn comps_close<T: Mix>(a: &T, b: &T, scale: f64) -> bool {
    a.comps().iter().zip(b.comps()).all(|(x, y)| (x - y).abs() <= scale * (1.0 + x.abs().max(y.abs())))
}
fn same<T: Mix>(a: &T, b: &T) -> bool {
    a.comps() == b.comps()
}

// ---------------------------------------------------------------- P01 / P02
fn p01_one<T: Arb + Mix + Default + std::fmt::Debug>(r: &mut Rng) -> R {
    let mut a: m::Animated<T> = g::animated_value(r, 100, true);
    if r.chance(1, 40) {
        a.times.clear();
        a.values.clear();
    }
    let dflt = T::arb(r, 9);
    for _ in 0..6 {
        let f = g::frame_for(r, &a.times);
        let v = m::Value::Animated(a.clone());
        let got = v.evaluate_or(f, dflt.clone());
        let got2 = v.evaluate(f);
        let ctx = || format!("frame {f}, times {:?}, values {:?}", a.times, a.values);
        let n = a.times.len();
        if n == 0 {
            if !same(&got, &dflt) || !same(&got2, &T::default()) {
                bail!("empty value: got {got:?} / {got2:?}; {}", ctx());
            }
            continue;
        }
        if !same(&got, &got2) {
            bail!("evaluate {got2:?} and evaluate_or {got:?} differ; {}", ctx());
        }
        let at: Vec<usize> = (0..n).filter(|i| a.times[*i].frame == f).collect();
        let fine = if f < a.times[0].frame {
            same(&got, &a.values[0])
        } else if f > a.times[n - 1].frame {
            same(&got, &a.values[n - 1])
        } else if !at.is_empty() {
            at.iter().any(|i| same(&got, &a.values[*i]))
        } else {
            let want = refm::animated_at(&a, f).unwrap();
            let (i, j, _, _, hold) = refm::lookup(&a.times, f).unwrap();
            if hold {
                same(&got, &a.values[i])
            } else {
                let span = a.values[i].comps().iter().zip(a.values[j].comps()).fold(0.0f64, |m, (x, y)| m.max((x - y).abs()));
                comps_close(&got, &want, 1e-4 * (1.0 + span))
            }
        };
        if !fine {
            bail!("got {got:?}, expected {:?}; {}", refm::animated_at(&a, f), ctx());
        }
    }
    Ok(())
}
pub fn p01(r: &mut Rng, i: u64) -> R {
    match i % 6 {
        0 => p01_one::<Point>(r),
        1 => p01_one::<Vec2>(r),
        2 => p01_one::<Size>(r),
        3 => {
            // colours have no Default; wrap by hand
            let a: m::Animated<Color> = g::animated_value(r, 1, false);
            let f = g::frame_for(r, &a.times);
            let got = m::Value::Animated(a.clone()).evaluate_or(f, Color::TRANSPARENT);
            let want = refm::animated_at(&a, f).unwrap();
            if !comps_close(&got, &want, 2e-4) {
                bail!("got {got:?}, expected {want:?}; frame {f}, {a:?}");
            }
            Ok(())
        }
        4 => {
            // path and gradient keyframes use the same lookup
            let s = g::spline(r);
            let f = g::frame_for(r, &s.times);
            let mut p = vec![];
            s.evaluate(f, &mut p);
            let want = refm::spline(&s, f);
            if !cmp::path_eq(&p, &want, 1e-7) {
                bail!("got {p:?}, expected {want:?}; frame {f}, {s:?}");
            }
            Ok(())
        }
        _ => p01_one::<f64>(r),
    }
}
fn p02_one<T: Arb + Mix + std::fmt::Debug>(r: &mut Rng) -> R {
    let (a, b) = (T::arb(r, 200), T::arb(r, 200));
    let b = if r.chance(1, 8) { a.clone() } else { b };
    let e = if r.chance(1, 4) { m::Easing::LERP } else { m::Easing { o: g::handle(r), i: g::handle(r) } };
    for _ in 0..6 {
        let t = match r.below(8) {
            0 => 0.0,
            1 => 1.0,
            2 => -r.pos(3),
            3 => 1.0 + r.pos(3),
            4 => 0.5,
            _ => r.unit(),
        };
        let got = m::Tween::tween(&a, &b, t, &e);
        let ctx = format!("a {a:?}, b {b:?}, t {t}, easing {e:?}");
        if t <= 0.0 || t >= 1.0 {
            let want = if t <= 0.0 { &a } else { &b };
            if !same(&got, want) {
                bail!("end point: got {got:?}; {ctx}");
            }
            continue;
        }
        let y = refm::ease(t, &e);
        for ((x, p), q) in got.comps().iter().zip(a.comps()).zip(b.comps()) {
            let want = p + (q - p) * y;
            if (x - want).abs() > 1e-6 + 2e-4 * (q - p).abs() {
                bail!("got {got:?}, expected component {want}; {ctx}");
            }
        }
    }
    Ok(())
}
pub fn p02(r: &mut Rng, i: u64) -> R {
    match i % 5 {
        0 => p02_one::<f64>(r),
        1 => p02_one::<Point>(r),
        2 => p02_one::<Vec2>(r),
        3 => p02_one::<Size>(r),
        _ => p02_one::<Color>(r),
    }
}

// ---------------------------------------------------------------- P03
fn animate_one<T: m::Tween + Clone>(r: &mut Rng, v: &mut m::Value<T>) {
    if let m::Value::Fixed(x) = v {
        *v = m::Value::Animated(m::Animated { times: g::times(r, 1, false), values: vec![x.clone()] });
    }
}
fn is_anim<T: m::Tween>(v: &m::Value<T>) -> bool {
    matches!(v, m::Value::Animated(_))
}
pub fn p03(r: &mut Rng, i: u64) -> R {
    let f = g::frame(r);
    let anim = r.chance(1, 3);
    let pick = r.below(12);
    match i % 8 {
        0 => {
            let mut t = g::transform_anim(r, anim);
            if !anim {
                match pick {
                    0 => animate_one(r, &mut t.anchor),
                    1 | 2 => match &mut t.position {
                        animated::Position::Value(v) => animate_one(r, v),
                        animated::Position::SplitValues((x, y)) => animate_one(r, if pick == 1 { x } else { y }),
                    },
                    3 => animate_one(r, &mut t.rotation),
                    4 => animate_one(r, &mut t.scale),
                    5 => animate_one(r, &mut t.skew),
                    6 => animate_one(r, &mut t.skew_angle),
                    _ => {}
                }
            }
            let pos = match &t.position {
                animated::Position::Value(v) => is_anim(v),
                animated::Position::SplitValues((x, y)) => is_anim(x) || is_anim(y),
            };
            let want = !(is_anim(&t.anchor) || pos || is_anim(&t.rotation) || is_anim(&t.scale) || is_anim(&t.skew) || is_anim(&t.skew_angle));
            let folded = t.clone().into_model();
            if t.is_fixed() != want || folded.is_fixed() != want || matches!(folded, m::Transform::Fixed(_)) != want {
                bail!("transform fixed={} folded={:?}, expected {want}; {t:?}", t.is_fixed(), folded);
            }
            let (a, b, c) = (folded.evaluate(f).into_owned(), t.evaluate(f), refm::transform_anim(&t, f));
            if !cmp::affine_eq(&a, &b, 1e-12) || !cmp::affine_eq(&b, &c, 1e-6) {
                bail!("transform folded {a:?}, unfolded {b:?}, reference {c:?} at {f}; {t:?}");
            }
        }
        1 => {
            let mut t = g::star(r, anim, true);
            if !anim {
                match pick {
                    0 => animate_one(r, &mut t.position),
                    1 => animate_one(r, &mut t.inner_radius),
                    2 => animate_one(r, &mut t.inner_roundness),
                    3 => animate_one(r, &mut t.outer_radius),
                    4 => animate_one(r, &mut t.outer_roundness),
                    5 => animate_one(r, &mut t.rotation),
                    6 => animate_one(r, &mut t.points),
                    _ => {}
                }
            }
            let want = !(is_anim(&t.position) || is_anim(&t.inner_radius) || is_anim(&t.inner_roundness) || is_anim(&t.outer_radius) || is_anim(&t.outer_roundness) || is_anim(&t.rotation) || is_anim(&t.points));
            let folded = t.clone().into_model();
            if t.is_fixed() != want || matches!(folded, m::Geometry::Fixed(_)) != want {
                bail!("star fixed={} folded={folded:?}, expected {want}; {t:?}", t.is_fixed());
            }
            let (mut a, mut b) = (vec![], vec![]);
            folded.evaluate(f, &mut a);
            t.evaluate(f, &mut b);
            if !cmp::path_eq(&a, &b, 1e-12) {
                bail!("star folded {a:?}, unfolded {b:?} at {f}; {t:?}");
            }
        }
        2 => {
            let mut t = g::repeater_anim(r, anim);
            if !anim {
                match pick {
                    0 => animate_one(r, &mut t.copies),
                    1 => animate_one(r, &mut t.offset),
                    2 => animate_one(r, &mut t.anchor_point),
                    3 => animate_one(r, &mut t.position),
                    4 => animate_one(r, &mut t.rotation),
                    5 => animate_one(r, &mut t.scale),
                    6 => animate_one(r, &mut t.start_opacity),
                    7 => animate_one(r, &mut t.end_opacity),
                    _ => {}
                }
            }
            let want = !(is_anim(&t.copies) || is_anim(&t.offset) || is_anim(&t.anchor_point) || is_anim(&t.position) || is_anim(&t.rotation) || is_anim(&t.scale) || is_anim(&t.start_opacity) || is_anim(&t.end_opacity));
            let folded = t.clone().into_model();
            if t.is_fixed() != want || folded.is_fixed() != want || matches!(folded, m::Repeater::Fixed(_)) != want {
                bail!("repeater fixed={} folded={folded:?}, expected {want}; {t:?}", t.is_fixed());
            }
            let (a, b, c) = (folded.evaluate(f).into_owned(), t.evaluate(f), refm::repeater_anim(&t, f));
            let v = |x: &fixed::Repeater| vec![x.copies as f64, x.offset, x.anchor_point.x, x.anchor_point.y, x.position.x, x.position.y, x.rotation, x.scale.x, x.scale.y, x.start_opacity, x.end_opacity];
            if v(&a) != v(&b) || v(&b).iter().zip(v(&c)).any(|(x, y)| !feq(*x, y, 1e-3)) {
                bail!("repeater folded {a:?}, unfolded {b:?}, reference {c:?} at {f}; {t:?}");
            }
        }
        3 => {
            let mut t = g::stroke_anim(r, anim);
            if !anim && pick < 4 {
                animate_one(r, &mut t.width);
            }
            let want = !is_anim(&t.width);
            let folded = t.clone().into_model();
            if t.is_fixed() != want || folded.is_fixed() != want || matches!(folded, m::Stroke::Fixed(_)) != want {
                bail!("stroke fixed={} folded={folded:?}, expected {want}; {t:?}", t.is_fixed());
            }
            let (a, b, c) = (Some(folded.evaluate(f).into_owned()), Some(t.evaluate(f)), Some(refm::stroke_anim(&t, f)));
            if !cmp::stroke_eq(&a, &b, 0.0) || !cmp::stroke_eq(&b, &c, 1e-3) {
                bail!("stroke folded {a:?}, unfolded {b:?}, reference {c:?} at {f}; {t:?}");
            }
        }
        4 | 5 => {
            let mut t = g::brush_anim(r, anim, i % 8 == 5);
            if i % 8 == 5 {
                if let animated::Brush::Solid(_) = t {
                    t = animated::Brush::Gradient(g::gradient(r, anim));
                }
            }
            if !anim {
                match &mut t {
                    animated::Brush::Solid(c) => {
                        if pick < 4 {
                            animate_one(r, c)
                        }
                    }
                    animated::Brush::Gradient(q) => match pick {
                        0 => animate_one(r, &mut q.start_point),
                        1 => animate_one(r, &mut q.end_point),
                        2 => q.stops = m::ColorStops::Animated(g::stops_anim(r)),
                        _ => {}
                    },
                }
            }
            let want = match &t {
                animated::Brush::Solid(c) => !is_anim(c),
                animated::Brush::Gradient(q) => {
                    let w = !(is_anim(&q.start_point) || is_anim(&q.end_point) || matches!(q.stops, m::ColorStops::Animated(_)));
                    if q.is_fixed() != w {
                        bail!("gradient fixed={}, expected {w}; {q:?}", q.is_fixed());
                    }
                    w
                }
            };
            let folded = t.clone().into_model();
            if t.is_fixed() != want || folded.is_fixed() != want || matches!(folded, m::Brush::Fixed(_)) != want {
                bail!("brush fixed={} folded={folded:?}, expected {want}; {t:?}", t.is_fixed());
            }
            for alpha in [1.0, 0.5, 0.0] {
                let (a, b) = (folded.evaluate(alpha, f).into_owned(), t.evaluate(alpha, f));
                let c = refm::with_alpha(&refm::brush_anim(&t, f), alpha);
                if !cmp::brush_eq(&a, &b, 1e-6) || !cmp::brush_eq(&b, &c, 1e-3) {
                    bail!("brush folded {a:?}, unfolded {b:?}, reference {c:?} at {f}, alpha {alpha}; {t:?}");
                }
            }
        }
        7 => {
            let mut t = animated::Rect { is_ccw: false, position: g::val(r, 20, anim), size: g::val(r, 30, anim), corner_radius: g::val(r, 10, anim) };
            if !anim {
                match pick {
                    0 | 3 => animate_one(r, &mut t.position),
                    1 | 4 => animate_one(r, &mut t.size),
                    2 => animate_one(r, &mut t.corner_radius),
                    _ => {}
                }
            }
            let e = animated::Ellipse { is_ccw: false, position: t.position.clone(), size: t.size.clone() };
            let want = !(is_anim(&e.position) || is_anim(&e.size));
            if t.is_fixed() != (want && !is_anim(&t.corner_radius)) || e.is_fixed() != want {
                bail!("rectangle fixed={}, ellipse fixed={}; {t:?}", t.is_fixed(), e.is_fixed());
            }
        }
        _ => {
            let mut t = g::trim_anim(r, anim);
            if !anim {
                match pick {
                    0 => animate_one(r, &mut t.start),
                    1 => animate_one(r, &mut t.end),
                    2 => animate_one(r, &mut t.offset),
                    _ => {}
                }
            }
            let want = !(is_anim(&t.start) || is_anim(&t.end) || is_anim(&t.offset));
            let folded = t.clone().into_model();
            if t.is_fixed() != want || folded.is_fixed() != want || matches!(folded, m::Trim::Fixed(_)) != want {
                bail!("trim fixed={} folded={folded:?}, expected {want}; {t:?}", t.is_fixed());
            }
            let (a, b) = (folded.evaluate(f).into_owned(), t.evaluate(f));
            let c = refm::trim_value(&m::Trim::Animated(t.clone()), f);
            let v = |x: &fixed::Trim| [x.start, x.end, x.offset];
            if v(&a) != v(&b) || (0..3).any(|k| !feq(v(&b)[k], v(&c)[k], 1e-2)) {
                bail!("trim folded {a:?}, unfolded {b:?}, reference {c:?} at {f}; {t:?}");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P04
pub fn p04(r: &mut Rng, _: u64) -> R {
    let anim = r.chance(1, 2);
    let t = g::transform_anim(r, anim);
    let f = g::frame(r);
    let got = t.evaluate(f);
    let want = refm::transform_anim(&t, f);
    if !cmp::affine_eq(&got, &want, 1e-4) {
        bail!("got {got:?}, expected {want:?}; frame {f}, {t:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- P05
pub fn p05(r: &mut Rng, _: u64) -> R {
    let pc = |r: &mut Rng| match r.below(6) {
        0 => 0.0,
        1 => 100.0,
        2 => r.range(-20, 20) as f64 * 10.0,
        _ => r.num(150),
    };
    let (start, end) = (pc(r), pc(r));
    let end = if r.chance(1, 10) { start } else { end };
    let offset = match r.below(4) {
        0 => 0.0,
        1 => r.range(-8, 8) as f64 * 90.0,
        _ => r.num(1000),
    };
    let t = fixed::Trim { start, end, offset };
    let got = t.normalized();
    let len = (end - start).abs();
    let swapped = fixed::Trim { start: end, end: start, offset }.normalized();
    if got != swapped {
        bail!("{t:?}: {got:?}, with start and end swapped {swapped:?}");
    }
    if len == 0.0 {
        if got.is_some() {
            bail!("{t:?}: empty trim keeps {got:?}");
        }
        return Ok(());
    }
    if len < 1e-6 || (len > 100.0 - 1e-6 && len < 100.0) {
        return Ok(());
    }
    if len >= 100.0 {
        if got != Some(((0.0, 1.0), None)) {
            bail!("{t:?}: full trim keeps {got:?}");
        }
        return Ok(());
    }
    let Some((a, b)) = got else { bail!("{t:?}: keeps nothing") };
    let ok = |x: (f64, f64)| 0.0 <= x.0 && x.0 <= x.1 && x.1 <= 1.0 + 1e-12;
    if !ok(a) || !b.map_or(true, ok) {
        bail!("{t:?}: intervals out of range {got:?}");
    }
    if let Some(b) = b {
        if a.1 != 1.0 || b.0 != 0.0 {
            bail!("{t:?}: wrapped intervals {got:?}");
        }
    }
    let total = a.1 - a.0 + b.map_or(0.0, |b| b.1 - b.0);
    let begin = (start.min(end) / 100.0 + offset / 360.0).rem_euclid(1.0);
    let d = (a.0 - begin).abs();
    if (total - len / 100.0).abs() > 1e-9 || d.min(1.0 - d) > 1e-9 {
        bail!("{t:?}: {got:?} has length {total} and begin {}, expected {} and {begin}", a.0, len / 100.0);
    }
    Ok(())
}

// ---------------------------------------------------------------- P06
fn prefix(r: &mut Rng) -> Vec<PathEl> {
    if r.chance(1, 2) { vec![] } else { g::fixed_path(r, true) }
}
pub fn p06(r: &mut Rng, _: u64) -> R {
    let mut s = g::spline(r);
    if r.chance(1, 2) {
        // static: one keyframe
        s.times.truncate(1);
        s.values.truncate(1);
        s.values[0].end = None;
    }
    let f = g::frame_for(r, &s.times);
    let pre = prefix(r);
    let mut got = pre.clone();
    s.evaluate(f, &mut got);
    let mut want = pre;
    want.extend(refm::spline(&s, f));
    if !cmp::path_eq(&got, &want, 1e-7) {
        bail!("got {got:?}, expected {want:?}; frame {f}, {s:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- P28
pub fn p28(r: &mut Rng, _: u64) -> R {
    let mut s = g::spline(r);
    if r.chance(1, 6) {
        // keyframes of different lengths
        for v in &mut s.values {
            let n = v.start.len() / 3;
            v.start.truncate(3 * r.below(n + 1));
        }
    }
    let f = g::frame_for(r, &s.times);
    let pre = prefix(r);
    let mut got = pre.clone();
    s.evaluate(f, &mut got);
    let mut want = pre;
    want.extend(refm::spline_indep(&s, f));
    if !cmp::path_eq(&got, &want, 1e-3) {
        bail!("got {got:?}, expected {want:?}; frame {f}, {s:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- P30
pub fn p30(r: &mut Rng, _: u64) -> R {
    use kurbo::{BezPath, Shape as _};
    let f = g::frame(r);
    let pre = prefix(r);
    let geometry = g::geometry(r, &g::Cfg { anim: true, curves: true, ..Default::default() });
    let mut got = pre.clone();
    geometry.evaluate(f, &mut got);
    if got.len() < pre.len() || got[..pre.len()] != pre[..] {
        bail!("the path's earlier elements {pre:?} became {got:?}; frame {f}, {geometry:?}");
    }
    let els = got[pre.len()..].to_vec();
    let (p, s, radius) = match &geometry {
        m::Geometry::Fixed(v) if *v == els => return Ok(()),
        m::Geometry::Fixed(v) => bail!("got {els:?}, expected {v:?}"),
        m::Geometry::Rect(x) => (refm::value(&x.position, f), refm::value(&x.size, f), Some(refm::value(&x.corner_radius, f))),
        m::Geometry::Ellipse(x) => (refm::value(&x.position, f), refm::value(&x.size, f), None),
        m::Geometry::Spline(x) => {
            let want = refm::spline_indep(x, f);
            if !cmp::path_eq(&els, &want, 1e-3) {
                bail!("got {els:?}, expected {want:?}; frame {f}, {geometry:?}");
            }
            return Ok(());
        }
        m::Geometry::Star(x) => {
            let pts = refm::value(&x.points, f);
            let want = refm::star(x, f);
            if ((pts - pts.floor()) - 0.5).abs() >= 1e-3 && !cmp::path_eq(&els, &want, 1e-3) {
                bail!("got {els:?}, expected {want:?}; frame {f}, {geometry:?}");
            }
            return Ok(());
        }
    };
    let (hw, hh) = (s.width.abs() / 2.0, s.height.abs() / 2.0);
    if hw < 0.1 || hh < 0.1 {
        return Ok(());
    }
    let path = BezPath::from_vec(els.clone());
    let b = path.bounding_box();
    // the outline is an approximation to within 0.1
    let tol = 0.12;
    if (b.x0 - p.x + hw).abs() > tol || (b.x1 - p.x - hw).abs() > tol || (b.y0 - p.y + hh).abs() > tol || (b.y1 - p.y - hh).abs() > tol {
        bail!("box {b:?} of {els:?}, expected centre {p:?} and size {s:?}; frame {f}, {geometry:?}");
    }
    // along the diagonal of the corner: where the outline passes
    let inside = |x: f64, y: f64| path.winding(Point::new(p.x + x, p.y + y)) != 0;
    let d = 0.5f64.sqrt();
    for (sx, sy) in [(1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)] {
        let (x, y) = match radius {
            Some(c) => {
                let c = c.abs().min(hw).min(hh);
                (hw - c + c * d, hh - c + c * d)
            }
            None => (hw * d, hh * d),
        };
        let e = 0.2537;
        if (x > e && y > e && !inside(sx * (x - e), sy * (y - e))) || inside(sx * (x + e), sy * (y + e)) {
            bail!("corner ({sx}, {sy}) of {els:?} is not at ({x}, {y}) from {p:?}; frame {f}, {geometry:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P07
pub fn p07(r: &mut Rng, _: u64) -> R {
    let s = g::stops_anim(r);
    let f = g::frame_for(r, &s.frames);
    let got = s.evaluate(f);
    let want = refm::stops_anim(&s, f);
    if !cmp::stops_eq(&got, &want, 1e-3) {
        bail!("got {got:?}, expected {want:?}; frame {f}, {s:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- P25
pub fn p25(r: &mut Rng, _: u64) -> R {
    let anim = r.chance(1, 2);
    let s = g::star(r, anim, true);
    let f = g::frame(r);
    let pts = refm::value(&s.points, f);
    if ((pts - pts.floor()) - 0.5).abs() < 1e-3 {
        return Ok(());
    }
    let pre = prefix(r);
    let mut got = pre.clone();
    s.evaluate(f, &mut got);
    let mut want = pre;
    want.extend(refm::star(&s, f));
    if !cmp::path_eq(&got, &want, 1e-3) {
        bail!("got {got:?}, expected {want:?}; frame {f}, {s:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- rendering
pub fn describe(c: &Composition) -> String {
    let mut names: Vec<_> = c.assets.keys().collect();
    names.sort();
    let assets: Vec<String> = names.iter().map(|n| format!("{n}: {:?}", c.assets[*n])).collect();
    format!("{}x{} layers {:?} assets [{}]", c.width, c.height, c.layers, assets.join("; "))
}
fn against_reference(r: &mut Rng, c: &Cfg, v: &View, alpha: f64) -> R {
    let comp = g::composition(r, c);
    let tf = g::root_tf(r);
    for _ in 0..3 {
        let f = g::frame(r);
        let got = render(&comp, f, tf, alpha);
        let want = refm::Render::run(&comp, f, tf, alpha);
        if let Err(e) = cmp::streams(&got, &want, &View { loose: c.trims && c.curves, ..*v }, 1e-6) {
            bail!("{e}; frame {f}, transform {tf:?}, alpha {alpha}, {}", describe(&comp));
        }
    }
    Ok(())
}
pub fn everything() -> Cfg {
    Cfg {
        anim: true,
        parents: true,
        parent_cycles: true,
        masks: true,
        mattes: true,
        instances: true,
        ref_cycles: true,
        windows: true,
        opacity: true,
        groups: true,
        trims: true,
        repeaters: true,
        gradients: true,
        strokes: true,
        curves: true,
        layer_tf: true,
        max_layers: 4,
    }
}
pub fn balanced(cmds: &[Cmd], full: &[PathEl], tf: Affine) -> R {
    #[derive(PartialEq)]
    enum K {
        L,
        G,
    }
    let mut st: Vec<K> = vec![];
    let n = cmds.len();
    match cmds.first() {
        Some(Cmd::Clip { tf: t, path }) if *t == tf && cmp::path_eq(path, full, 1e-12) => {}
        c => bail!("first command is {c:?}, not the clip to the composition"),
    }
    for (i, c) in cmds.iter().enumerate() {
        match c {
            Cmd::Layer { .. } | Cmd::Clip { .. } => st.push(K::L),
            Cmd::Begin { .. } => st.push(K::G),
            Cmd::Pop => {
                if st.pop() != Some(K::L) {
                    bail!("command {i}: unmatched pop");
                }
            }
            Cmd::End => {
                if st.pop() != Some(K::G) {
                    bail!("command {i}: unmatched end of group");
                }
            }
            Cmd::Draw { .. } => {}
        }
        if st.is_empty() && i + 1 < n {
            bail!("command {i} of {n} closes the outermost clip");
        }
    }
    if !st.is_empty() {
        bail!("{} layers or groups left open", st.len());
    }
    Ok(())
}
pub fn p08(r: &mut Rng, _: u64) -> R {
    let comp = g::composition(r, &Cfg { max_layers: 5, ..everything() });
    let tf = g::root_tf(r);
    let f = g::frame(r);
    let got = render(&comp, f, tf, 1.0);
    let full: Vec<PathEl> = kurbo::Shape::path_elements(&kurbo::Rect::new(0.0, 0.0, comp.width as f64, comp.height as f64), 0.1).collect();
    balanced(&got, &full, tf).map_err(|e| format!("{e}; frame {f}, {}", describe(&comp)))
}
pub fn p09(r: &mut Rng, _: u64) -> R {
    let c = Cfg { windows: true, masks: true, mattes: true, instances: r.chance(1, 3), layer_tf: r.chance(1, 2), max_layers: 5, ..Default::default() };
    against_reference(r, &c, &cmp::ALL, 1.0)
}
pub fn p10(r: &mut Rng, _: u64) -> R {
    if r.chance(1, 3) {
        let c = Cfg { parents: true, layer_tf: true, instances: true, mattes: true, masks: r.chance(1, 2), windows: r.chance(1, 2), anim: r.chance(1, 2), max_layers: 4, ..Default::default() };
        return against_reference(r, &c, &View { brush: false, ..cmp::ALL }, 1.0);
    }
    let cycles = r.chance(1, 4);
    let c = Cfg { parents: true, parent_cycles: cycles, windows: r.chance(1, 2), layer_tf: true, anim: r.chance(1, 2), max_layers: 6, ..Default::default() };
    let mut comp = g::composition(r, &c);
    let mark = vec![PathEl::MoveTo(Point::ZERO), PathEl::LineTo(Point::new(1.0, 1.0))];
    for l in &mut comp.layers {
        l.content = m::Content::Shape(vec![
            m::Shape::Geometry(m::Geometry::Fixed(mark.clone())),
            m::Shape::Draw(m::Draw { stroke: None, brush: m::Brush::Fixed(Color::BLACK.into()), opacity: m::Value::Fixed(100.0) }),
        ]);
    }
    let tf = g::root_tf(r);
    let f = g::frame(r);
    let got: Vec<Affine> = render(&comp, f, tf, 1.0).iter().filter_map(|c| if let Cmd::Draw { tf, .. } = c { Some(*tf) } else { None }).collect();
    let active: Vec<usize> = (0..comp.layers.len()).rev().filter(|i| comp.layers[*i].frames.contains(&f)).collect();
    if got.len() != active.len() {
        bail!("{} draws for {} active layers; frame {f}, {}", got.len(), active.len(), describe(&comp));
    }
    for (k, i) in active.into_iter().enumerate() {
        if refm::chain_is_cyclic(&comp.layers, i) {
            continue;
        }
        let want = refm::mul(tf, refm::chain(&comp.layers, i, f));
        if !cmp::affine_eq(&got[k], &want, 1e-4) {
            bail!("layer {i}: got {:?}, expected {want:?}; frame {f}, root {tf:?}, {}", got[k], describe(&comp));
        }
    }
    Ok(())
}
pub fn p11(r: &mut Rng, _: u64) -> R {
    let (parents, mattes) = (r.chance(1, 2), r.chance(1, 4));
    let c = Cfg { instances: true, windows: true, opacity: true, layer_tf: true, parents, mattes, anim: r.chance(1, 2), max_layers: 3, ..Default::default() };
    let a = r.pick(&[1.0, 0.5]);
    against_reference(r, &c, &cmp::ALL, a)
}
pub fn p12(r: &mut Rng, _: u64) -> R {
    let c = Cfg { groups: true, strokes: true, curves: r.chance(1, 3), max_layers: 1, ..Default::default() };
    against_reference(r, &c, &View { structure: false, ..cmp::ALL }, 1.0)
}
pub fn p13(r: &mut Rng, _: u64) -> R {
    let c = Cfg { groups: true, trims: true, repeaters: true, curves: r.chance(1, 2), anim: r.chance(1, 3), opacity: r.chance(1, 3), max_layers: 1, ..Default::default() };
    against_reference(r, &c, &View { brush: false, structure: false, ..cmp::ALL }, 1.0)
}
pub fn p14(r: &mut Rng, _: u64) -> R {
    let c = Cfg { groups: true, trims: true, curves: r.chance(1, 2), anim: r.chance(1, 4), max_layers: 1, ..Default::default() };
    against_reference(r, &c, &View { structure: false, ..cmp::ALL }, 1.0)
}
pub fn p15(r: &mut Rng, _: u64) -> R {
    let c = Cfg { groups: true, repeaters: true, opacity: true, anim: r.chance(1, 4), max_layers: 1, ..Default::default() };
    against_reference(r, &c, &View { structure: false, ..cmp::ALL }, 1.0)
}
fn stream_key(c: &[Cmd]) -> String {
    format!("{c:?}")
}
pub fn p16(r: &mut Rng, _: u64) -> R {
    let mut c = everything();
    c.max_layers = 3;
    let comps: Vec<Composition> = (0..3)
        .map(|_| {
            let mut c = c;
            c.masks = r.chance(2, 3);
            c.repeaters = r.chance(1, 2);
            c.trims = r.chance(1, 2);
            g::composition(r, &c)
        })
        .collect();
    let mut shared = Renderer::new();
    let mut hist = vec![];
    for _ in 0..6 {
        let k = r.below(comps.len());
        let f = g::frame(r);
        let tf = g::root_tf(r);
        let mut s = Rec::default();
        shared.append(&comps[k], f, tf, 1.0, &mut s);
        hist.push((k, f));
        let fresh = render(&comps[k], f, tf, 1.0);
        if stream_key(&s.0) != stream_key(&fresh) {
            let e = cmp::streams(&s.0, &fresh, &cmp::ALL, 0.0).err().unwrap_or_default();
            bail!("history {hist:?}: reused renderer differs from a fresh one: {e}; {}", describe(&comps[k]));
        }
    }
    Ok(())
}
fn acyclic_refs(c: &Composition) -> bool {
    // a layer is nested in at most one place per path; a reference graph without cycles
    fn set<'a>(c: &'a Composition, a: &Option<String>) -> &'a [m::Layer] {
        match a {
            None => &c.layers,
            Some(n) => c.assets.get(n).map(|v| v.as_slice()).unwrap_or(&[]),
        }
    }
    fn walk(c: &Composition, path: &mut Vec<(Option<String>, usize)>) -> bool {
        let (a, i) = path.last().unwrap().clone();
        let ls = set(c, &a);
        let Some(l) = ls.get(i) else { return true };
        let mut next = vec![];
        if let Some((_, k)) = l.mask_layer {
            next.push((a.clone(), k));
        }
        if let m::Content::Instance { name, .. } = &l.content {
            if path.iter().any(|p| p.0.as_ref() == Some(name)) {
                return false;
            }
            for k in 0..set(c, &Some(name.clone())).len() {
                next.push((Some(name.clone()), k));
            }
        }
        for n in next {
            if path.contains(&n) {
                return false;
            }
            path.push(n);
            if !walk(c, path) {
                return false;
            }
            path.pop();
        }
        true
    }
    (0..c.layers.len()).all(|i| walk(c, &mut vec![(None, i)]))
}
pub fn p17(r: &mut Rng, _: u64) -> R {
    let c = Cfg { instances: true, mattes: true, parents: true, parent_cycles: true, ref_cycles: true, layer_tf: true, max_layers: 4, ..Default::default() };
    let comp = g::composition(r, &c);
    let f = g::frame(r);
    let got = render(&comp, f, Affine::IDENTITY, 1.0);
    // no layer inside itself
    let mut st: Vec<String> = vec![];
    for c in &got {
        match c {
            Cmd::Begin { name, .. } => {
                if st.contains(name) {
                    bail!("layer {name} is drawn inside itself; frame {f}, {}", describe(&comp));
                }
                st.push(name.clone());
            }
            Cmd::End => {
                st.pop();
            }
            _ => {}
        }
    }
    if acyclic_refs(&comp) {
        let want = refm::Render::run(&comp, f, Affine::IDENTITY, 1.0);
        let names = |s: &[Cmd]| -> Vec<String> { s.iter().filter_map(|c| if let Cmd::Begin { name, .. } = c { Some(name.clone()) } else { None }).collect() };
        if names(&got) != names(&want) {
            bail!("layers drawn {:?}, expected {:?}; frame {f}, {}", names(&got), names(&want), describe(&comp));
        }
    }
    Ok(())
}
pub fn p24(r: &mut Rng, _: u64) -> R {
    let c = Cfg { instances: true, mattes: r.chance(1, 2), masks: r.chance(1, 4), windows: r.chance(1, 2), opacity: true, groups: true, parents: true, gradients: r.chance(1, 2), anim: r.chance(1, 2), max_layers: 3, ..Default::default() };
    let a = r.pick(&[1.0, 0.5, 0.25]);
    against_reference(r, &c, &View { tf: false, path: false, ..cmp::ALL }, a)
}
