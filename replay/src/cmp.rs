//! Comparison of command streams and values with tolerances.
use crate::refm::Cmd;
use kurbo::{Affine, PathEl, Point};
use velato::model::fixed;

pub fn feq(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs() + b.abs()) || (a.is_nan() && b.is_nan())
}
pub fn affine_eq(a: &Affine, b: &Affine, tol: f64) -> bool {
    let (a, b) = (a.as_coeffs(), b.as_coeffs());
    let m = a.iter().chain(b.iter()).fold(1.0f64, |m, x| m.max(x.abs()));
    a == b || (0..6).all(|i| (a[i] - b[i]).abs() <= tol * m || (a[i].is_nan() && b[i].is_nan()))
}
pub fn pt_eq(a: Point, b: Point, tol: f64) -> bool {
    feq(a.x, b.x, tol) && feq(a.y, b.y, tol)
}
pub fn points(e: &PathEl) -> Vec<Point> {
    use PathEl::*;
    match e {
        MoveTo(a) | LineTo(a) => vec![*a],
        QuadTo(a, b) => vec![*a, *b],
        CurveTo(a, b, c) => vec![*a, *b, *c],
        ClosePath => vec![],
    }
}
/// `slack`: absolute error allowed on top of the tolerance
pub fn el_eq(a: &PathEl, b: &PathEl, tol: f64, slack: f64) -> bool {
    let near = |a: f64, b: f64| feq(a, b, tol) || (a - b).abs() <= slack;
    let (p, q) = (points(a), points(b));
    std::mem::discriminant(a) == std::mem::discriminant(b) && p.iter().zip(&q).all(|(a, b)| near(a.x, b.x) && near(a.y, b.y))
}
/// coordinates so large that they swamp the others (a rounded two-cornered polygon has handles
/// at a distance of tan(90 degrees)) are compared relative to the largest
pub fn path_eq(a: &[PathEl], b: &[PathEl], tol: f64) -> bool {
    let big = a.iter().chain(b).flat_map(points).fold(0.0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
    let slack = if big > 1e9 && big.is_finite() { big * 1e-9 } else { 0.0 };
    // an edge is straight when both handles are on their vertices; rounding can take one off by a
    // unit in the last place, so a line and a curve that is one up to rounding (but not exactly) agree
    let line = |(ca, cb): (Point, Point), x: &PathEl, y: &PathEl| {
        let (p, cur, c, d, q) = match (x, y) {
            (PathEl::LineTo(p), PathEl::CurveTo(c, d, q)) => (*p, cb, *c, *d, *q),
            (PathEl::CurveTo(c, d, q), PathEl::LineTo(p)) => (*p, ca, *c, *d, *q),
            _ => return false,
        };
        (c != cur || d != q) && pt_eq(p, q, tol) && pt_eq(c, cur, tol) && pt_eq(d, q, tol)
    };
    let end = |x: &PathEl, cur: Point| points(x).last().copied().unwrap_or(cur);
    let mut cur = (Point::ZERO, Point::ZERO);
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            let ok = el_eq(x, y, tol, slack) || line(cur, x, y);
            cur = (end(x, cur.0), end(y, cur.1));
            ok
        })
}
pub fn stroke_eq(a: &Option<fixed::Stroke>, b: &Option<fixed::Stroke>, tol: f64) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            feq(a.width, b.width, tol)
                && a.join == b.join
                && a.miter_limit == b.miter_limit
                && a.start_cap == b.start_cap
                && a.end_cap == b.end_cap
                && a.dash_pattern == b.dash_pattern
        }
        _ => false,
    }
}
pub fn comps_eq(a: &[f32; 4], b: &[f32; 4], tol: f64) -> bool {
    (0..4).all(|i| feq(a[i] as f64, b[i] as f64, tol))
}
pub fn stops_eq(a: &fixed::ColorStops, b: &fixed::ColorStops, tol: f64) -> bool {
    a.len() == b.len()
        && a.iter().zip(b.iter()).all(|(x, y)| feq(x.offset as f64, y.offset as f64, tol) && comps_eq(&x.color.components, &y.color.components, tol))
}
pub fn brush_eq(a: &fixed::Brush, b: &fixed::Brush, tol: f64) -> bool {
    use peniko::Brush::*;
    match (a, b) {
        (Solid(a), Solid(b)) => comps_eq(&a.components, &b.components, tol),
        (Gradient(a), Gradient(b)) => kind_eq(&a.kind, &b.kind, tol) && stops_eq(&a.stops, &b.stops, tol),
        _ => false,
    }
}
fn kind_eq(a: &peniko::GradientKind, b: &peniko::GradientKind, tol: f64) -> bool {
    use peniko::GradientKind::*;
    match (a, b) {
        (Linear(a), Linear(b)) => pt_eq(a.start, b.start, tol) && pt_eq(a.end, b.end, tol),
        (Radial(a), Radial(b)) => {
            pt_eq(a.start_center, b.start_center, tol)
                && pt_eq(a.end_center, b.end_center, tol)
                && feq(a.start_radius as f64, b.start_radius as f64, 1e-4)
                && feq(a.end_radius as f64, b.end_radius as f64, 1e-4)
        }
        (a, b) => a == b,
    }
}

/// what part of the stream is compared
#[derive(Clone, Copy)]
pub struct View {
    pub tf: bool,
    pub brush: bool,
    pub path: bool,
    pub structure: bool,
    /// paths are compared as point sets: where curves are cut depends on an approximate arc length
    pub loose: bool,
}
pub const ALL: View = View { tf: true, brush: true, path: true, structure: true, loose: false };

fn samples(p: &[PathEl]) -> (f64, Vec<Point>) {
    use kurbo::{ParamCurve, ParamCurveArclen};
    let b: kurbo::BezPath = p.iter().cloned().collect();
    let mut len = 0.0;
    let mut v = vec![];
    for s in b.segments() {
        len += s.arclen(0.01);
        for k in 0..=16 {
            v.push(s.eval(k as f64 / 16.0));
        }
    }
    (len, v)
}
/// length and shape agree up to the accuracy of cutting curves by arc length
pub fn path_close(a: &[PathEl], b: &[PathEl]) -> bool {
    if path_eq(a, b, 1e-6) {
        return true;
    }
    let ((la, pa), (lb, pb)) = (samples(a), samples(b));
    if (la - lb).abs() > 0.5 + 0.01 * la.max(lb) {
        return false;
    }
    let near = |p: &Point, q: &[Point]| q.iter().map(|x| (x.x - p.x).hypot(x.y - p.y)).fold(f64::INFINITY, f64::min);
    let tol = 1.0 + 0.1 * la;
    pa.iter().all(|p| near(p, &pb) <= tol) && pb.iter().all(|p| near(p, &pa) <= tol)
}

/// drops empty draws and joins consecutive draws that differ only in their path
pub fn normalise(s: &[Cmd], by_tf: bool) -> Vec<Cmd> {
    let mut out: Vec<Cmd> = vec![];
    for c in s {
        if let Cmd::Draw { stroke, tf, brush, path } = c {
            if path.is_empty() {
                continue;
            }
            if let Some(Cmd::Draw { stroke: s0, tf: t0, brush: b0, path: p0 }) = out.last_mut() {
                if stroke_eq(stroke, s0, 1e-9) && (!by_tf || affine_eq(tf, t0, 1e-9)) && brush_eq(brush, b0, 1e-6) {
                    p0.extend(path.iter().cloned());
                    continue;
                }
            }
        }
        out.push(c.clone());
    }
    out
}
pub fn cmd_eq(a: &Cmd, b: &Cmd, v: &View, tol: f64) -> bool {
    match (a, b) {
        (Cmd::Layer { blend: b0, alpha: a0, tf: t0, path: p0 }, Cmd::Layer { blend: b1, alpha: a1, tf: t1, path: p1 }) => {
            b0 == b1 && a0 == a1 && (!v.tf || affine_eq(t0, t1, tol)) && (!v.path || if v.loose { path_close(p0, p1) } else { path_eq(p0, p1, tol) })
        }
        (Cmd::Clip { tf: t0, path: p0 }, Cmd::Clip { tf: t1, path: p1 }) => (!v.tf || affine_eq(t0, t1, tol)) && (!v.path || if v.loose { path_close(p0, p1) } else { path_eq(p0, p1, tol) }),
        (Cmd::Pop, Cmd::Pop) | (Cmd::End, Cmd::End) => true,
        (Cmd::Begin { name: n0, index: i0 }, Cmd::Begin { name: n1, index: i1 }) => n0 == n1 && i0 == i1,
        (Cmd::Draw { stroke: s0, tf: t0, brush: b0, path: p0 }, Cmd::Draw { stroke: s1, tf: t1, brush: b1, path: p1 }) => {
            (!v.brush || (stroke_eq(s0, s1, tol) && brush_eq(b0, b1, 2e-4))) && (!v.tf || affine_eq(t0, t1, tol)) && (!v.path || if v.loose { path_close(p0, p1) } else { path_eq(p0, p1, tol) })
        }
        _ => false,
    }
}
/// pieces of a run of draws, element by element: how the elements are split over draw calls does not matter
fn pieces<'a>(s: &'a [Cmd], at: &mut usize) -> Vec<(&'a Cmd, &'a PathEl)> {
    let mut v = vec![];
    while let Some(c @ Cmd::Draw { path, .. }) = s.get(*at) {
        v.extend(path.iter().map(|e| (c, e)));
        *at += 1;
    }
    v
}
fn draw_style_eq(a: &Cmd, b: &Cmd, v: &View, tol: f64) -> bool {
    match (a, b) {
        (Cmd::Draw { stroke: s0, tf: t0, brush: b0, .. }, Cmd::Draw { stroke: s1, tf: t1, brush: b1, .. }) => {
            (!v.brush || (stroke_eq(s0, s1, tol) && brush_eq(b0, b1, 2e-4))) && (!v.tf || affine_eq(t0, t1, tol))
        }
        _ => false,
    }
}
/// coordinates so large that they swamp the others: see path_eq
fn slack(a: &[(&Cmd, &PathEl)], b: &[(&Cmd, &PathEl)]) -> f64 {
    let big = a.iter().chain(b).flat_map(|x| points(x.1)).fold(0.0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
    if big > 1e9 && big.is_finite() { big * 1e-9 } else { 0.0 }
}
fn exact(g: &[Cmd], w: &[Cmd], v: &View, tol: f64) -> Result<(), String> {
    let (mut i, mut j) = (0, 0);
    loop {
        let (i0, j0) = (i, j);
        let (a, b) = (pieces(g, &mut i), pieces(w, &mut j));
        let sl = slack(&a, &b);
        for k in 0..a.len().max(b.len()) {
            let ok = match (a.get(k), b.get(k)) {
                (Some(x), Some(y)) => draw_style_eq(x.0, y.0, v, tol) && (!v.path || el_eq(x.1, y.1, tol, sl)),
                _ => !v.path && !a.is_empty() && !b.is_empty(),
            };
            if !ok {
                return Err(format!("element {k} of the draws from command {i0}/{j0} on: got {:?}, expected {:?}", a.get(k), b.get(k)));
            }
        }
        match (g.get(i), w.get(j)) {
            (None, None) => return Ok(()),
            (Some(x), Some(y)) if cmd_eq(x, y, v, tol) => {}
            (x, y) => return Err(format!("command {i} of {}/{}: got {x:?}, expected {y:?}", g.len(), w.len())),
        }
        i += 1;
        j += 1;
    }
}
pub fn streams(got: &[Cmd], want: &[Cmd], v: &View, tol: f64) -> Result<(), String> {
    let (mut g, mut w) = (got.to_vec(), want.to_vec());
    if !v.structure {
        g.retain(|c| matches!(c, Cmd::Draw { .. }));
        w.retain(|c| matches!(c, Cmd::Draw { .. }));
    }
    if !v.loose {
        return exact(&g, &w, v, tol);
    }
    // a path about as long as the bound can be below it on one side only, so other bounds are tried
    let mut first = None;
    for short in [0.5, 1.0, 2.0] {
        match loose(&g, &w, v, tol, short) {
            Ok(()) => return Ok(()),
            Err(e) => first = first.or(Some(e)),
        }
    }
    Err(first.unwrap())
}
/// equal up to the accuracy of arc lengths: paths shorter than `short` are left out
fn loose(g: &[Cmd], w: &[Cmd], v: &View, tol: f64, short: f64) -> Result<(), String> {
    let joined = |g: &[Cmd], w: &[Cmd], v: &View, by_tf: bool| {
        let (mut g, mut w) = (normalise(g, by_tf), normalise(w, by_tf));
        for s in [&mut g, &mut w] {
            s.retain(|c| !matches!(c, Cmd::Draw { path, .. } if samples(path).0 < short));
            *s = normalise(s, by_tf);
        }
        for i in 0..g.len().max(w.len()) {
            match (g.get(i), w.get(i)) {
                (Some(a), Some(b)) if cmd_eq(a, b, v, tol) => {}
                (a, b) => return Err(format!("command {i} of {}/{}: got {a:?}, expected {b:?}", g.len(), w.len())),
            }
        }
        Ok(())
    };
    let r = joined(g, w, v, true);
    if r.is_err() {
        // transforms so close that rounding decides which draws are joined
        let tfs = |s: &[Cmd]| s.iter().filter_map(|c| match c { Cmd::Draw { tf, path, .. } if samples(path).0 >= short => Some(*tf), _ => None }).collect::<Vec<_>>();
        let (a, b) = (tfs(g), tfs(w));
        let near = |x: &Affine, s: &[Affine]| s.iter().any(|y| affine_eq(x, y, tol));
        if a.iter().all(|x| near(x, &b)) && b.iter().all(|x| near(x, &a)) && joined(g, w, &View { tf: false, ..*v }, false).is_ok() {
            return Ok(());
        }
    }
    r
}
