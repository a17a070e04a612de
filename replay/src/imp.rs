//! Documents, and what they should import to, read straight from the JSON.
use crate::rng::Rng;
use kurbo::{Cap, Join, PathEl, Point, Size, Vec2};
use peniko::{BlendMode, Color, Compose, Mix};
use serde_json::{Value as J, json};
use std::collections::HashMap;
use velato::model::{self as m, animated};

type R = Result<(), String>;
macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

// ---------------------------------------------------------------- documents
fn num(r: &mut Rng) -> J {
    match r.below(3) {
        0 => json!(r.range(-200, 200)),
        _ => json!(r.num(200)),
    }
}
fn unit(r: &mut Rng) -> J {
    json!((r.unit() * 1000.0).round() / 1000.0)
}
fn put(o: &mut J, k: &str, v: J) {
    o.as_object_mut().unwrap().insert(k.into(), v);
}
fn merge(o: &mut J, v: J) {
    for (k, x) in v.as_object().unwrap() {
        put(o, k, x.clone());
    }
}
fn comp(r: &mut Rng) -> J {
    if r.chance(1, 3) {
        return unit(r);
    }
    let n = r.pick(&[0, 1, 1, 2, 2, 3]);
    J::Array((0..n).map(|_| unit(r)).collect())
}
fn handle(r: &mut Rng) -> J {
    json!({"x": comp(r), "y": comp(r)})
}
fn base(r: &mut Rng, t: &mut f64) -> J {
    *t += r.pick(&[0.0, 1.0, 5.0, 7.5, 20.0]);
    let mut k = json!({"t": *t});
    match r.below(4) {
        0 => {
            put(&mut k, "i", handle(r));
            put(&mut k, "o", handle(r));
        }
        1 => {
            // one array per handle, of one length
            let n = r.pick(&[1, 2, 3]);
            let mut h = || json!({"x": (0..n).map(|_| unit(r)).collect::<Vec<_>>(), "y": (0..n).map(|_| unit(r)).collect::<Vec<_>>()});
            let (i, o) = (h(), h());
            put(&mut k, "i", i);
            put(&mut k, "o", o);
        }
        2 => {
            if r.chance(1, 2) {
                put(&mut k, "i", handle(r));
            }
            if r.chance(1, 2) {
                put(&mut k, "o", handle(r));
            }
        }
        _ => {}
    }
    if r.chance(1, 3) {
        put(&mut k, "h", json!(r.below(2)));
    }
    k
}
/// how wild a document may be: 0 well formed, 1 with missing, short and empty parts
#[derive(Clone, Copy)]
pub struct Opt {
    wild: bool,
    anim: usize,
}
fn comps(r: &mut Rng, n: usize, o: Opt) -> Vec<J> {
    let n = if o.wild && r.chance(1, 4) { r.below(n + 3) } else { n };
    (0..n).map(|_| num(r)).collect()
}
/// how many of something: a few, now and then many
fn some_of(r: &mut Rng, few: usize, many: usize) -> usize {
    if r.chance(1, 24) { few + r.below(many) } else { few }
}
fn keyframes(r: &mut Rng, n: usize, o: Opt) -> J {
    let len = if o.wild { r.below(5) } else { 1 + r.below(4) };
    let len = some_of(r, len, 24);
    let mut t = r.num(30);
    J::Array(
        (0..len)
            .map(|_| {
                let mut k = base(r, &mut t);
                put(&mut k, "s", J::Array(comps(r, n, o)));
                if r.chance(1, 6) {
                    put(&mut k, "e", J::Array(comps(r, n, o)));
                }
                if r.chance(1, 6) {
                    put(&mut k, "ti", json!([1, 2]));
                    put(&mut k, "to", json!([3, 4]));
                }
                k
            })
            .collect(),
    )
}
fn wrap(r: &mut Rng, k: J, animated: bool) -> J {
    let mut v = json!({"k": k});
    if r.chance(3, 4) {
        put(&mut v, "a", json!(animated as u8));
    }
    if r.chance(1, 6) {
        put(&mut v, "ix", json!(r.below(9)));
    }
    v
}
fn float(r: &mut Rng, o: Opt) -> J {
    if r.chance(o.anim, 10) {
        let k = keyframes(r, 1, o);
        wrap(r, k, true)
    } else {
        let k = num(r);
        wrap(r, k, false)
    }
}
fn multi(r: &mut Rng, n: usize, o: Opt) -> J {
    if r.chance(o.anim, 10) {
        let k = keyframes(r, n, o);
        wrap(r, k, true)
    } else {
        let k = J::Array(comps(r, n, o));
        wrap(r, k, false)
    }
}
fn bezier(r: &mut Rng, o: Opt, n: usize, closed: bool) -> J {
    let tan = |r: &mut Rng| {
        let k = if o.wild && r.chance(1, 4) { r.below(n + 2) } else { n };
        (0..k).map(|_| if r.chance(1, 3) { json!([0, 0]) } else { json!([num(r), num(r)]) }).collect::<Vec<_>>()
    };
    let mut b = json!({"i": tan(r), "o": tan(r)});
    put(&mut b, "v", J::Array((0..n).map(|_| json!([num(r), num(r)])).collect()));
    if closed || r.chance(1, 2) {
        put(&mut b, "c", json!(closed));
    }
    b
}
fn path(r: &mut Rng, o: Opt) -> J {
    let n = if o.wild { r.below(5) } else { 1 + r.below(4) };
    let n = some_of(r, n, 16);
    if !r.chance(o.anim, 10) {
        let c = r.chance(1, 2);
        let k = bezier(r, o, n, c);
        return wrap(r, k, false);
    }
    let len = if o.wild { r.below(5) } else { 1 + r.below(4) };
    let len = some_of(r, len, 12);
    let mut t = r.num(30);
    let closed = r.chance(1, 2);
    let mut ks: Vec<J> = vec![];
    for x in 0..len {
        let mut k = base(r, &mut t);
        let beziers = |r: &mut Rng| {
            let n = if o.wild && r.chance(1, 6) { r.below(6) } else { n };
            let c = if r.chance(1, 8) { r.chance(1, 2) } else { closed };
            if o.wild && r.chance(1, 16) {
                json!([])
            } else {
                // a keyframe's bezier is the first of its array
                let mut v = vec![bezier(r, o, n, c)];
                while o.wild && r.chance(1, 8) {
                    let c = r.chance(1, 2);
                    v.push(bezier(r, o, n, c));
                }
                J::Array(v)
            }
        };
        if x == 0 || x + 1 < len || r.chance(1, 2) {
            put(&mut k, "s", beziers(r));
        }
        if r.chance(1, 3) {
            put(&mut k, "e", beziers(r));
        }
        ks.push(k);
    }
    wrap(r, J::Array(ks), true)
}
fn position(r: &mut Rng, o: Opt) -> J {
    if r.chance(1, 4) {
        let mut p = json!({"s": true, "x": float(r, o), "y": float(r, o)});
        if r.chance(1, 2) {
            put(&mut p, "z", float(r, o));
        }
        return p;
    }
    let n = r.pick(&[2, 3]);
    multi(r, n, o)
}
fn rotation(r: &mut Rng, o: Opt) -> J {
    if r.chance(1, 5) {
        return json!({"x": float(r, o), "y": float(r, o), "z": float(r, o), "or": multi(r, 3, o)});
    }
    float(r, o)
}
fn transform(r: &mut Rng, o: Opt) -> J {
    let mut t = json!({"p": position(r, o)});
    let mut some = |r: &mut Rng, k: &str, f: &mut dyn FnMut(&mut Rng) -> J| {
        if r.chance(2, 3) {
            let v = f(r);
            put(&mut t, k, v);
        }
    };
    some(r, "a", &mut |r| multi(r, 2, o));
    some(r, "s", &mut |r| multi(r, 2, o));
    some(r, "r", &mut |r| rotation(r, o));
    some(r, "o", &mut |r| float(r, o));
    some(r, "sk", &mut |r| float(r, o));
    some(r, "sa", &mut |r| float(r, o));
    t
}
fn color(r: &mut Rng, o: Opt) -> J {
    let n = r.pick(&[3, 4]);
    multi(r, n, o)
}
/// the flat list of a gradient with `count` colours
pub fn stop_list(r: &mut Rng, count: usize, said: usize, wild: bool) -> Vec<J> {
    let mut v = vec![];
    let sorted = |r: &mut Rng, n: usize| {
        let mut v: Vec<f64> = (0..n).map(|_| if r.chance(1, 8) { (r.unit() * 100.0).round() / 100.0 } else { r.pick(&[0.0, 0.05, 0.1, 0.25, 0.5, 0.9, 1.0]) }).collect();
        if !(wild && r.chance(1, 6)) {
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        }
        v
    };
    for off in sorted(r, count) {
        v.push(json!(off));
        for _ in 0..3 {
            v.push(unit(r));
        }
    }
    if r.chance(2, 3) {
        let n = r.below(5);
        let n = some_of(r, n, 12);
        for off in sorted(r, n) {
            v.push(json!(off));
            v.push(unit(r));
        }
    }
    if wild && r.chance(1, 3) {
        let n = r.below(v.len() + 1);
        v.truncate(n);
    }
    if wild && r.chance(1, 8) {
        v.push(unit(r));
    }
    // stops so near a quarter of two opacities that rounding decides do without opacities
    let list: Vec<f64> = v.iter().map(f).collect();
    let n = 4 * said.min(list.len() / 4);
    let near = |x: f64, a: f64, b: f64| {
        let (t, u, d) = ((x - a) / (b - a), x / (b - a) - a / (b - a), b - a);
        (t <= 0.25) != (u <= 0.25) || (t <= 0.25) != (x - a <= 0.25 * d) || (t >= 0.75) != (u >= 0.75) || (t >= 0.75) != (x - a >= 0.75 * d)
    };
    let track: Vec<f64> = list[n..].chunks_exact(2).map(|c| c[0]).collect();
    if list[..n].chunks_exact(4).any(|c| track.windows(2).any(|w| w[0] < w[1] && w[0] <= c[0] && c[0] <= w[1] && near(c[0], w[0], w[1]))) {
        v.truncate(n);
    }
    v
}
fn stops(r: &mut Rng, o: Opt) -> J {
    let count = if o.wild { r.below(5) } else { 1 + r.below(4) };
    let count = some_of(r, count, 16);
    let p = if o.wild && r.chance(1, 5) { r.pick(&[0usize, 1, 2, 7, 1 << 40, usize::MAX]) } else { count };
    let k = if r.chance(o.anim, 10) {
        let len = if o.wild { r.below(4) } else { 1 + r.below(3) };
        let len = some_of(r, len, 8);
        let mut t = r.num(30);
        let ks = (0..len)
            .map(|_| {
                let mut k = base(r, &mut t);
                put(&mut k, "s", J::Array(stop_list(r, count, p, o.wild)));
                k
            })
            .collect();
        wrap(r, J::Array(ks), true)
    } else {
        let k = J::Array(stop_list(r, count, p, o.wild));
        wrap(r, k, false)
    };
    json!({"p": p, "k": k})
}
fn stroke_base(r: &mut Rng, o: Opt) -> J {
    let mut s = json!({"w": float(r, o)});
    if r.chance(3, 4) {
        put(&mut s, "lc", json!(1 + r.below(3)));
    }
    if r.chance(3, 4) {
        put(&mut s, "lj", json!(1 + r.below(3)));
    }
    if r.chance(1, 2) {
        put(&mut s, "ml", num(r));
    }
    s
}
fn gradient(r: &mut Rng, o: Opt) -> J {
    let mut g = json!({"g": stops(r, o), "s": multi(r, 2, o), "e": multi(r, 2, o)});
    if r.chance(3, 4) {
        put(&mut g, "t", json!(1 + r.below(2)));
    }
    g
}
fn shape(r: &mut Rng, o: Opt, depth: usize) -> J {
    let kind = r.pick(&["gr", "rc", "el", "st", "fl", "tm", "sh", "gf", "gs", "sr", "sh", "rd", "mm", "gr"]);
    let kind = if depth == 0 && kind == "gr" { "sh" } else { kind };
    let mut s = match kind {
        "gr" => {
            // a few items, now and then many, or one group in another for a while
            let (n, down) = match r.below(24) {
                0 => (5 + r.below(12), depth.min(1) - 1),
                1 if depth < 8 => (1, depth),
                _ => (r.below(5), depth - 1),
            };
            let mut it: Vec<J> = (0..n).map(|_| shape(r, o, down)).collect();
            if r.chance(3, 4) {
                let mut t = transform(r, o);
                put(&mut t, "ty", json!("tr"));
                let at = if r.chance(3, 4) { it.len() } else { r.below(it.len() + 1) };
                it.insert(at, t);
                if r.chance(1, 5) {
                    // the last one declared counts
                    let mut t = transform(r, o);
                    put(&mut t, "ty", json!("tr"));
                    it.insert(r.below(it.len() + 1), t);
                }
            }
            json!({"it": it})
        }
        "rc" => json!({"p": multi(r, 2, o), "s": multi(r, 2, o), "r": float(r, o)}),
        "el" => json!({"p": multi(r, 2, o), "s": multi(r, 2, o)}),
        "st" => {
            let mut s = stroke_base(r, o);
            put(&mut s, "c", color(r, o));
            put(&mut s, "o", float(r, o));
            s
        }
        "fl" => json!({"c": color(r, o), "o": float(r, o)}),
        "tm" => json!({"s": float(r, o), "e": float(r, o), "o": float(r, o)}),
        "sh" => json!({"ks": path(r, o)}),
        "gf" => {
            let mut s = gradient(r, o);
            put(&mut s, "o", float(r, o));
            s
        }
        "gs" => {
            let mut s = gradient(r, o);
            merge(&mut s, stroke_base(r, o));
            put(&mut s, "o", float(r, o));
            s
        }
        "sr" => {
            let mut s = json!({"p": multi(r, 2, o), "or": float(r, o), "os": float(r, o), "r": float(r, o), "pt": float(r, o), "sy": 1 + r.below(2)});
            if r.chance(2, 3) {
                put(&mut s, "ir", float(r, o));
            }
            if r.chance(2, 3) {
                put(&mut s, "is", float(r, o));
            }
            s
        }
        "rd" => json!({"r": float(r, o)}),
        _ => json!({}),
    };
    put(&mut s, "ty", json!(kind));
    if r.chance(1, 4) {
        put(&mut s, "nm", json!("shape"));
    }
    if r.chance(1, 8) {
        put(&mut s, "hd", json!(r.chance(2, 3)));
    }
    s
}
fn layer(r: &mut Rng, o: Opt, lists: usize, rich: bool) -> J {
    let ty = if rich { r.pick(&[0, 4, 4, 4, 3]) } else { r.below(5) };
    let ip = r.num(60);
    let small = Opt { wild: o.wild, anim: if rich { o.anim } else { 1 } };
    let mut l = json!({"ty": ty, "ip": ip, "op": ip + r.num(60), "ks": if rich || r.chance(1, 4) { transform(r, small) } else { json!({"p": {"k": [0, 0]}}) }});
    if r.chance(4, 5) {
        put(&mut l, "ind", json!(r.below(7)));
    }
    if r.chance(1, 2) {
        put(&mut l, "parent", json!(r.below(8)));
    }
    if r.chance(1, 3) {
        put(&mut l, "tt", json!(r.below(5)));
        if r.chance(1, 2) {
            let t = if r.chance(1, 12) { r.pick(&[json!(-1), json!(1.5), json!(1e30)]) } else { json!(r.below(8)) };
            put(&mut l, "tp", t);
        }
    }
    if r.chance(1, 3) {
        put(&mut l, "td", json!(r.below(2)));
    }
    if r.chance(1, 4) {
        put(&mut l, "hd", json!(r.chance(2, 3)));
    }
    if r.chance(1, 2) {
        put(&mut l, "sr", json!(r.pick(&[1.0, 0.5, 2.0, -1.0, 3.25])));
    }
    if r.chance(3, 4) {
        put(&mut l, "nm", json!(format!("layer {}", r.below(50))));
    }
    if r.chance(1, 2) {
        put(&mut l, "bm", json!(r.below(18)));
    }
    if r.chance(1, 2) || ty == 0 {
        put(&mut l, "st", num(r));
    }
    if r.chance(1, 3) {
        let n = r.below(3);
        let n = some_of(r, n, 6);
        let masks = (0..n)
            .map(|_| {
                let mut x = json!({});
                if r.chance(4, 5) {
                    put(&mut x, "pt", path(r, small));
                }
                if r.chance(2, 3) {
                    put(&mut x, "o", float(r, small));
                }
                if r.chance(1, 3) {
                    put(&mut x, "inv", json!(true));
                }
                x
            })
            .collect();
        put(&mut l, "masksProperties", J::Array(masks));
    }
    match ty {
        0 => {
            put(&mut l, "refId", json!(format!("a{}", r.below(lists + 1))));
            put(&mut l, "w", json!(r.pos(500)));
            put(&mut l, "h", json!(r.pos(500)));
            if r.chance(1, 4) {
                put(&mut l, "tm", float(r, small));
            }
        }
        1 => {
            put(&mut l, "sw", json!(10));
            put(&mut l, "sh", json!(20));
            put(&mut l, "sc", json!("#ff0000"));
        }
        2 => put(&mut l, "refId", json!("img")),
        4 => {
            let n = if rich { 1 + r.below(5) } else { r.below(3) };
            let n = some_of(r, n, 12);
            put(&mut l, "shapes", J::Array((0..n).map(|_| shape(r, small, 2)).collect()));
        }
        _ => {}
    }
    l
}
fn layer_list(r: &mut Rng, o: Opt, lists: usize, rich: bool) -> J {
    let n = if rich { 1 + r.below(2) } else { r.below(7) };
    let n = if rich { n } else { some_of(r, n, 24) };
    // indices need not be small
    let from = if r.chance(1, 10) { r.pick(&[100u64, 250, 65_530, (1 << 32) - 4]) } else { 0 };
    let more = n as u64 > 7;
    let mut v: Vec<J> = (0..n).map(|_| layer(r, o, lists, rich)).collect();
    for l in &mut v {
        for k in ["ind", "parent", "tp"] {
            if let Some(i) = l.get(k).and_then(J::as_u64) {
                let wide = if more && r.chance(3, 4) { r.below(n + 2) as u64 } else { i };
                put(l, k, json!(wide + if r.chance(7, 8) { from } else { 0 }));
            }
        }
    }
    J::Array(v)
}
pub fn document(r: &mut Rng, o: Opt, rich: bool) -> J {
    let lists = r.below(3);
    let lists = if r.chance(1, 24) { 3 + r.below(8) } else { lists };
    let mut d = json!({"v": "5.5.2", "fr": r.pos(60), "ip": r.num(10), "op": r.pos(100), "w": r.below(900), "h": r.below(900), "layers": layer_list(r, o, lists, rich)});
    if lists > 0 {
        let mut assets: Vec<J> = vec![];
        for i in 0..lists {
            let id = if r.chance(1, 8) { 0 } else { i };
            assets.push(json!({"id": format!("a{id}"), "layers": layer_list(r, o, lists, rich)}));
            if r.chance(1, 4) {
                assets.push(json!({"id": "img", "w": 5, "h": 5, "p": "x.png", "e": 0, "t": "seq"}));
            }
        }
        put(&mut d, "assets", J::Array(assets));
    }
    d
}

// ---------------------------------------------------------------- what it means
fn f(v: &J) -> f64 {
    v.as_f64().unwrap()
}
fn fs(v: &J) -> Vec<f64> {
    v.as_array().unwrap().iter().map(f).collect()
}
fn present<'a>(o: &'a J, k: &str) -> Option<&'a J> {
    o.get(k).filter(|v| !v.is_null())
}
/// an empty list counts as a list of keyframes
fn frames_of(v: &J) -> Option<&Vec<J>> {
    v.get("k").unwrap().as_array().filter(|a| a.is_empty() || a[0].is_object())
}
fn hold(k: &J) -> bool {
    present(k, "h").is_some_and(|h| f(h) == 1.0)
}
/// components of a handle: the single number, or the numbers of the array
fn one_handle(k: &J, name: &str) -> Option<m::EasingHandle> {
    let h = present(k, name)?;
    let first = |v: &J| match v {
        J::Array(a) => a.first().map(f),
        v => Some(f(v)),
    };
    Some(m::EasingHandle { x: first(&h["x"])?, y: first(&h["y"])? })
}
fn handles(k: &J, name: &str) -> Vec<m::EasingHandle> {
    let Some(h) = present(k, name) else { return vec![] };
    let len = |v: &J| v.as_array().map(|a| a.len().min(2));
    let at = |v: &J, i: usize| match v {
        J::Array(a) => f(&a[i]),
        v => f(v),
    };
    let n = match (len(&h["x"]), len(&h["y"])) {
        (None, None) => 1,
        (Some(a), None) | (None, Some(a)) => a,
        (Some(a), Some(b)) => a.min(b),
    };
    (0..n).map(|i| m::EasingHandle { x: at(&h["x"], i), y: at(&h["y"], i) }).collect()
}
fn time1(k: &J) -> m::Time {
    m::Time { frame: f(&k["t"]), in_tangent: one_handle(k, "i"), out_tangent: one_handle(k, "o"), hold: hold(k) }
}
pub fn scalar(v: &J) -> m::Value<f64> {
    match frames_of(v) {
        None => m::Value::Fixed(f(&v["k"])),
        Some(ks) => m::Value::Animated(m::Animated { times: ks.iter().map(time1).collect(), values: ks.iter().map(|k| fs(&k["s"]).first().copied().unwrap_or(0.0)).collect() }),
    }
}
fn vector<T: m::Tween>(v: &J, g: impl Fn(&[f64]) -> T) -> m::Value<T> {
    let Some(ks) = frames_of(v) else { return m::Value::Fixed(g(&fs(&v["k"]))) };
    let (mut times, mut values) = (vec![], vec![]);
    for k in ks {
        let (i, o) = (handles(k, "i"), handles(k, "o"));
        let n = i.len().min(o.len());
        for x in 0..n.max(1) {
            times.push(m::Time { frame: f(&k["t"]), in_tangent: (x < n).then(|| i[x]), out_tangent: (x < n).then(|| o[x]), hold: hold(k) });
            values.push(g(&fs(&k["s"])));
        }
    }
    m::Value::Animated(m::Animated { times, values })
}
fn two(v: &[f64]) -> (f64, f64) {
    if v.len() < 2 { (0.0, 0.0) } else { (v[0], v[1]) }
}
fn pt(v: &J) -> m::Value<Point> {
    vector(v, |c| Point::new(two(c).0, two(c).1))
}
fn vec2(v: &J) -> m::Value<Vec2> {
    vector(v, |c| Vec2::new(two(c).0, two(c).1))
}
fn size(v: &J) -> m::Value<Size> {
    vector(v, |c| Size::new(two(c).0, two(c).1))
}
fn colour(v: &J) -> m::Value<Color> {
    vector(v, |c| if c.len() < 3 { Color::new([0.0, 0.0, 0.0, 1.0]) } else { Color::new([c[0] as f32, c[1] as f32, c[2] as f32, 1.0]) })
}
fn bez_points(b: &J) -> (Vec<Point>, bool) {
    let list = |k: &str| b[k].as_array().unwrap().iter().map(|p| (f(&p[0]), f(&p[1]))).collect::<Vec<_>>();
    let (v, i, o) = (list("v"), list("i"), list("o"));
    let mut out = vec![];
    for (n, p) in v.iter().enumerate() {
        out.push(Point::new(p.0, p.1));
        for t in [&i, &o] {
            let q = t.get(n).copied().unwrap_or((0.0, 0.0));
            out.push(Point::new(q.0, q.1));
        }
    }
    (out, b.get("c").and_then(J::as_bool).unwrap_or(false))
}
fn path_of(v: &J) -> Option<m::Geometry> {
    let Some(ks) = frames_of(v) else {
        let (p, c) = bez_points(&v["k"]);
        return Some(m::Geometry::Fixed(crate::refm::spline_path(&p, c)));
    };
    let (mut times, mut values, mut closed) = (vec![], vec![], false);
    for (n, k) in ks.iter().enumerate() {
        let list = |k: &J, name: &str| present(k, name).map(|s| s.as_array().unwrap().first().cloned());
        let start = match list(k, "s") {
            Some(s) => s?,
            None => {
                let prev = &ks[n.checked_sub(1)?];
                match list(prev, "e") {
                    Some(Some(e)) => e,
                    _ => list(prev, "s")??,
                }
            }
        };
        let (s, c) = bez_points(&start);
        closed |= c;
        let end = list(k, "e").flatten().map(|e| {
            let (e, c) = bez_points(&e);
            closed |= c;
            e
        });
        times.push(time1(k));
        values.push(animated::SplineKeyframeValues { start: s, end });
    }
    Some(m::Geometry::Spline(animated::Spline { is_closed: closed, times, values }))
}
/// offset, red, green, blue, alpha
pub fn stops_of(list: &[f64], count: usize) -> Vec<[f64; 5]> {
    let n = count.min(list.len() / 4);
    let mut out: Vec<[f64; 5]> = (0..n).map(|i| [list[4 * i], list[4 * i + 1], list[4 * i + 2], list[4 * i + 3], 1.0]).collect();
    if n < count || n == 0 {
        return out;
    }
    let track: Vec<(f64, f64)> = list[4 * n..].chunks_exact(2).map(|c| (c[0], c[1])).collect();
    for s in &mut out {
        for w in track.windows(2) {
            let ((a, p), (b, q)) = (w[0], w[1]);
            let x = s[0];
            let t = if a == b { 0.0 } else { (x - a) / (b - a) };
            let inside = x >= a && x <= b;
            let alpha = if inside && t >= 0.75 && x >= 0.9 {
                q
            } else if inside && t <= 0.25 && x <= 0.1 {
                p
            } else {
                p + (q - p) * t.clamp(0.0, 1.0)
            };
            s[4] = s[4].min(alpha);
        }
    }
    out
}
fn stops_value(g: &J) -> m::ColorStops {
    let count = g["p"].as_u64().unwrap() as usize;
    let k = &g["k"];
    match frames_of(k) {
        None => {
            let mut s = m::fixed::ColorStops::new();
            for v in stops_of(&fs(&k["k"]), count) {
                s.push((v[0] as f32, Color::new([v[1] as f32, v[2] as f32, v[3] as f32, v[4] as f32])).into());
            }
            m::ColorStops::Fixed(s)
        }
        Some(ks) => m::ColorStops::Animated(animated::ColorStops { frames: ks.iter().map(time1).collect(), values: ks.iter().map(|k| stops_of(&fs(&k["s"]), count).concat()).collect(), count }),
    }
}
fn stroke_of(v: &J, join: Join, cap: Cap) -> m::Stroke {
    let pick = |k: &str| present(v, k).map(|x| f(x) as u8);
    animated::Stroke {
        width: scalar(&v["w"]),
        join: match pick("lj") {
            None => join,
            Some(1) => Join::Miter,
            Some(2) => Join::Round,
            _ => Join::Bevel,
        },
        miter_limit: present(v, "ml").map(f),
        cap: match pick("lc") {
            None => cap,
            Some(1) => Cap::Butt,
            Some(2) => Cap::Round,
            _ => Cap::Square,
        },
    }
    .into_model()
}
fn gradient_of(v: &J) -> m::Brush {
    animated::Brush::Gradient(animated::Gradient { is_radial: present(v, "t").is_some_and(|t| f(t) == 2.0), start_point: pt(&v["s"]), end_point: pt(&v["e"]), stops: stops_value(&v["g"]) }).into_model()
}
fn transform_of(t: &J) -> (m::Transform, m::Value<f64>) {
    let zero = json!({"k": 0});
    let hundred = json!({"k": 100});
    let p = &t["p"];
    let rotation = match present(t, "r") {
        None => scalar(&zero),
        Some(r) if r.get("k").is_some() => scalar(r),
        Some(r) => scalar(&r["z"]),
    };
    let a = animated::Transform {
        anchor: present(t, "a").map_or(m::Value::Fixed(Point::ZERO), pt),
        position: if p.get("k").is_some() { animated::Position::Value(pt(p)) } else { animated::Position::SplitValues((scalar(&p["x"]), scalar(&p["y"]))) },
        rotation,
        scale: present(t, "s").map_or(m::Value::Fixed(Vec2::new(100.0, 100.0)), vec2),
        skew: scalar(present(t, "sk").unwrap_or(&zero)),
        skew_angle: scalar(present(t, "sa").unwrap_or(&zero)),
    };
    (a.into_model(), scalar(present(t, "o").unwrap_or(&hundred)))
}
fn shape_of(v: &J) -> Option<m::Shape> {
    let geo = |g| Some(m::Shape::Geometry(g));
    let draw = |stroke, brush| Some(m::Shape::Draw(m::Draw { stroke, brush, opacity: scalar(&v["o"]) }));
    if v.get("hd").and_then(J::as_bool).unwrap_or(false) {
        return None;
    }
    match v["ty"].as_str().unwrap() {
        "rc" => geo(m::Geometry::Rect(animated::Rect { is_ccw: false, position: pt(&v["p"]), size: size(&v["s"]), corner_radius: scalar(&v["r"]) })),
        "el" => geo(m::Geometry::Ellipse(animated::Ellipse { is_ccw: false, position: pt(&v["p"]), size: size(&v["s"]) })),
        "sh" => geo(path_of(&v["ks"])?),
        "sr" => {
            let polygon = f(&v["sy"]) == 2.0;
            let inner = |k: &str| if polygon { m::Value::Fixed(0.0) } else { present(v, k).map_or(m::Value::Fixed(0.0), scalar) };
            geo(animated::Star {
                is_polygon: polygon,
                direction: 1.0,
                position: pt(&v["p"]),
                inner_radius: inner("ir"),
                inner_roundness: inner("is"),
                outer_radius: scalar(&v["or"]),
                outer_roundness: scalar(&v["os"]),
                rotation: scalar(&v["r"]),
                points: scalar(&v["pt"]),
            }
            .into_model())
        }
        "fl" => draw(None, animated::Brush::Solid(colour(&v["c"])).into_model()),
        "st" => draw(Some(stroke_of(v, Join::Bevel, Cap::Butt)), animated::Brush::Solid(colour(&v["c"])).into_model()),
        "gf" => draw(None, gradient_of(v)),
        "gs" => draw(Some(stroke_of(v, Join::Round, Cap::Round)), gradient_of(v)),
        "tm" => Some(m::Shape::Trim(animated::Trim { start: scalar(&v["s"]), end: scalar(&v["e"]), offset: scalar(&v["o"]) }.into_model())),
        "gr" => {
            let items = v["it"].as_array().unwrap();
            let t = items.iter().filter(|i| i["ty"] == "tr").last().map(|t| {
                let (transform, opacity) = transform_of(t);
                m::GroupTransform { transform, opacity }
            });
            let s: Vec<m::Shape> = items.iter().filter(|i| i["ty"] != "tr").filter_map(shape_of).collect();
            if s.is_empty() { None } else { Some(m::Shape::Group(s, t)) }
        }
        _ => None,
    }
}
fn blend_of(v: Option<&J>) -> Option<BlendMode> {
    use Mix::*;
    Some(match v.map_or(0, |v| f(v) as u8) {
        1 => Multiply.into(),
        2 => Screen.into(),
        3 => Overlay.into(),
        4 => Darken.into(),
        5 => Lighten.into(),
        6 => ColorDodge.into(),
        7 => ColorBurn.into(),
        8 => HardLight.into(),
        9 => SoftLight.into(),
        10 => Difference.into(),
        11 => Exclusion.into(),
        12 => Hue.into(),
        13 => Saturation.into(),
        14 => Mix::Color.into(),
        15 => Luminosity.into(),
        16 => Compose::Plus.into(),
        _ => return None,
    })
}
pub fn layers_of(list: &J) -> Vec<m::Layer> {
    let src = list.as_array().unwrap();
    let id = |l: &J| present(l, "ind").map_or(0, |x| f(x) as usize);
    let find = |n: usize| src.iter().rposition(|l| id(l) == n);
    let hidden = |l: &J| l.get("hd").and_then(J::as_bool).unwrap_or(false);
    let is_mask = |l: &J| !hidden(l) && present(l, "td").is_some_and(|t| f(t) == 1.0);
    src.iter()
        .enumerate()
        .map(|(n, l)| {
            let (transform, opacity) = transform_of(&l["ks"]);
            let ty = f(&l["ty"]) as u8;
            let matte = present(l, "tt").map(|t| match f(t) as u8 {
                0 => Mix::Normal.into(),
                1 | 3 => Compose::SrcIn.into(),
                _ => Compose::SrcOut.into(),
            });
            let mask_layer = matte.and_then(|mode: BlendMode| {
                let at = match present(l, "tp") {
                    Some(t) => find(f(t) as usize),
                    None => {
                        // the nearest matte source above, unless another matted layer that is no source itself lies between
                        let mut k = n;
                        loop {
                            if k == 0 {
                                break None;
                            }
                            k -= 1;
                            if is_mask(&src[k]) {
                                break Some(k);
                            }
                            if present(&src[k], "tt").is_some() {
                                break None;
                            }
                        }
                    }
                };
                at.map(|a| (mode, a))
            });
            m::Layer {
                name: l.get("nm").and_then(J::as_str).unwrap_or("").to_string(),
                parent: present(l, "parent").and_then(|p| find(f(p) as usize)),
                transform,
                opacity,
                width: if ty == 0 { f(&l["w"]) } else { 0.0 },
                height: if ty == 0 { f(&l["h"]) } else { 0.0 },
                blend_mode: blend_of(present(l, "bm")),
                frames: f(&l["ip"])..f(&l["op"]),
                stretch: present(l, "sr").map_or(1.0, f),
                start_frame: present(l, "st").map_or(0.0, f),
                masks: present(l, "masksProperties")
                    .map(|ms| {
                        ms.as_array()
                            .unwrap()
                            .iter()
                            .filter_map(|x| {
                                let geometry = path_of(present(x, "pt")?)?;
                                Some(m::Mask { mode: BlendMode::default(), geometry, opacity: present(x, "o").map_or(m::Value::Fixed(100.0), scalar) })
                            })
                            .collect()
                    })
                    .unwrap_or_default(),
                is_mask: is_mask(l),
                mask_layer,
                content: match ty {
                    _ if hidden(l) => m::Content::None,
                    0 => m::Content::Instance { name: l["refId"].as_str().unwrap().into(), time_remap: present(l, "tm").map(scalar) },
                    4 => m::Content::Shape(l["shapes"].as_array().unwrap().iter().filter_map(shape_of).collect()),
                    _ => m::Content::None,
                },
            }
        })
        .collect()
}

// ---------------------------------------------------------------- comparison
fn same(what: &str, a: &impl std::fmt::Debug, b: &impl std::fmt::Debug) -> R {
    let (a, b) = (format!("{a:?}"), format!("{b:?}"));
    if a != b {
        bail!("{what}: got {a}, expected {b}");
    }
    Ok(())
}
fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() < 2e-3 || (a.is_nan() && b.is_nan())
}
fn stops_same(a: &m::ColorStops, b: &m::ColorStops) -> R {
    match (a, b) {
        (m::ColorStops::Fixed(x), m::ColorStops::Fixed(y)) => {
            if x.len() != y.len() {
                bail!("stops: got {a:?}, expected {b:?}");
            }
            for (p, q) in x.iter().zip(y.iter()) {
                let (c, d) = (p.color.components, q.color.components);
                if p.offset != q.offset || c[..3] != d[..3] || !near(c[3] as f64, d[3] as f64) {
                    bail!("stops: got {a:?}, expected {b:?}");
                }
            }
        }
        (m::ColorStops::Animated(x), m::ColorStops::Animated(y)) => {
            same("gradient keyframes", &(&x.frames, x.count), &(&y.frames, y.count))?;
            let ok = x.values.len() == y.values.len()
                && x.values.iter().zip(&y.values).all(|(p, q)| p.len() == q.len() && p.iter().zip(q).enumerate().all(|(i, (p, q))| if i % 5 == 4 { near(*p, *q) } else { p == q }));
            if !ok {
                bail!("stops: got {a:?}, expected {b:?}");
            }
        }
        _ => bail!("stops: got {a:?}, expected {b:?}"),
    }
    Ok(())
}
fn brush_same(a: &m::Brush, b: &m::Brush) -> R {
    use animated::Brush::Gradient;
    match (a, b) {
        (m::Brush::Animated(Gradient(x)), m::Brush::Animated(Gradient(y))) => {
            same("gradient", &(x.is_radial, &x.start_point, &x.end_point), &(y.is_radial, &y.start_point, &y.end_point))?;
            stops_same(&x.stops, &y.stops)
        }
        (m::Brush::Fixed(x), m::Brush::Fixed(y)) if matches!(x, peniko::Brush::Gradient(_)) => {
            if crate::cmp::brush_eq(x, y, 2e-3) {
                Ok(())
            } else {
                Err(format!("gradient: got {x:?}, expected {y:?}"))
            }
        }
        _ => same("brush", a, b),
    }
}
fn geometry_same(a: &m::Geometry, b: &m::Geometry) -> R {
    match (a, b) {
        (m::Geometry::Fixed(x), m::Geometry::Fixed(y)) => {
            let (x, y): (&[PathEl], &[PathEl]) = (x, y);
            if crate::cmp::path_eq(x, y, 1e-9) { Ok(()) } else { Err(format!("path: got {x:?}, expected {y:?}")) }
        }
        _ => same("geometry", a, b),
    }
}
fn shapes_same(a: &[m::Shape], b: &[m::Shape]) -> R {
    let kinds = |s: &[m::Shape]| {
        s.iter()
            .map(|s| match s {
                m::Shape::Group(..) => "group",
                m::Shape::Geometry(_) => "geometry",
                m::Shape::Draw(_) => "draw",
                m::Shape::Repeater(_) => "repeater",
                m::Shape::Trim(_) => "trim",
            })
            .collect::<Vec<_>>()
    };
    same("kinds of shapes", &kinds(a), &kinds(b))?;
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (m::Shape::Group(x, t), m::Shape::Group(y, u)) => {
                shapes_same(x, y)?;
                same("group transform", t, u)?;
            }
            (m::Shape::Geometry(x), m::Shape::Geometry(y)) => geometry_same(x, y)?,
            (m::Shape::Draw(x), m::Shape::Draw(y)) => {
                same("stroke", &x.stroke, &y.stroke)?;
                same("paint opacity", &x.opacity, &y.opacity)?;
                brush_same(&x.brush, &y.brush)?;
            }
            _ => same("shape", x, y)?,
        }
    }
    Ok(())
}
fn count_shapes(l: &m::Layer) -> usize {
    fn go(s: &[m::Shape]) -> usize {
        s.iter().map(|s| if let m::Shape::Group(g, _) = s { 1 + go(g) } else { 1 }).sum()
    }
    if let m::Content::Shape(s) = &l.content { go(s) } else { 0 }
}
fn shape_names(s: &[m::Shape]) -> String {
    s.iter()
        .map(|s| match s {
            m::Shape::Group(g, t) => format!("[{}{}]", shape_names(g), if t.is_some() { "*" } else { "" }),
            m::Shape::Geometry(m::Geometry::Rect(_)) => "r".into(),
            m::Shape::Geometry(m::Geometry::Ellipse(_)) => "e".into(),
            m::Shape::Geometry(_) => "p".into(),
            m::Shape::Draw(d) => (if d.stroke.is_some() { "s" } else { "f" }).into(),
            m::Shape::Repeater(_) => "R".into(),
            m::Shape::Trim(_) => "t".into(),
        })
        .collect()
}
#[derive(Clone, Copy, PartialEq)]
enum Aspect {
    Links,
    Attributes,
    Values,
    Kinds,
}
fn layer_same(a: &m::Layer, b: &m::Layer, aspect: Aspect) -> R {
    match aspect {
        Aspect::Links => {
            same("parent", &a.parent, &b.parent)?;
            same("matte", &a.mask_layer, &b.mask_layer)
        }
        Aspect::Attributes => {
            same("name", &a.name, &b.name)?;
            same("active range", &a.frames, &b.frames)?;
            same("stretch", &a.stretch, &b.stretch)?;
            same("start frame", &a.start_frame, &b.start_frame)?;
            same("matte source", &a.is_mask, &b.is_mask)?;
            same("clip size", &(a.width, a.height), &(b.width, b.height))?;
            same("opacity", &a.opacity, &b.opacity)?;
            same("transform", &a.transform, &b.transform)?;
            same("blend mode of matte", &a.mask_layer.map(|x| x.0), &b.mask_layer.map(|x| x.0))?;
            same("number of masks", &a.masks.len(), &b.masks.len())?;
            for (x, y) in a.masks.iter().zip(&b.masks) {
                same("mask opacity", &x.opacity, &y.opacity)?;
                geometry_same(&x.geometry, &y.geometry)?;
            }
            match (&a.content, &b.content) {
                (m::Content::Shape(x), m::Content::Shape(y)) => same("shapes", &shape_names(x), &shape_names(y)),
                (x, y) => same("content", x, y),
            }
        }
        Aspect::Values | Aspect::Kinds => {
            same("layer blend mode", &a.blend_mode, &b.blend_mode)?;
            same("layer opacity", &a.opacity, &b.opacity)?;
            same("layer transform", &a.transform, &b.transform)?;
            match (&a.content, &b.content) {
                (m::Content::Shape(x), m::Content::Shape(y)) => shapes_same(x, y),
                _ => Ok(()),
            }
        }
    }
}
fn list_same(what: &str, a: &[m::Layer], b: &[m::Layer], aspect: Aspect) -> R {
    same(&format!("{what}: number of layers"), &a.len(), &b.len())?;
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        layer_same(x, y, aspect).map_err(|e| format!("{what}, layer {i}: {e}"))?;
    }
    Ok(())
}
fn document_same(r: &mut Rng, o: Opt, rich: bool, aspect: Aspect) -> R {
    let doc = document(r, o, rich);
    let got = match velato::Composition::from_json(doc.clone()) {
        Ok(c) => c,
        Err(e) => bail!("document not accepted: {e}; {doc}"),
    };
    import_same(&doc, &got, aspect)
}
fn import_same(doc: &J, got: &velato::Composition, aspect: Aspect) -> R {
    let tell = |e: String| format!("{e}; document {doc}");
    if aspect == Aspect::Attributes {
        same("composition", &(&got.frames, got.frame_rate, got.width, got.height), &(&(f(&doc["ip"])..f(&doc["op"])), f(&doc["fr"]), f(&doc["w"]) as usize, f(&doc["h"]) as usize)).map_err(tell)?;
    }
    list_same("composition", &got.layers, &layers_of(&doc["layers"]), aspect).map_err(tell)?;
    let mut want: HashMap<String, &J> = HashMap::new();
    for a in doc.get("assets").and_then(J::as_array).into_iter().flatten() {
        if let Some(l) = a.get("layers") {
            want.insert(a["id"].as_str().unwrap().into(), l);
        }
    }
    same("number of assets", &got.assets.len(), &want.len()).map_err(tell)?;
    for (id, l) in want {
        let Some(g) = got.assets.get(&id) else { bail!("asset {id} is missing; document {doc}") };
        list_same(&format!("asset {id}"), g, &layers_of(l), aspect).map_err(tell)?;
    }
    Ok(())
}
pub fn p18(r: &mut Rng, _: u64) -> R {
    document_same(r, Opt { wild: false, anim: 1 }, false, Aspect::Links)
}
pub fn p19(r: &mut Rng, i: u64) -> R {
    document_same(r, Opt { wild: false, anim: 1 }, i % 4 == 0, Aspect::Attributes)
}
pub fn p20(r: &mut Rng, i: u64) -> R {
    document_same(r, Opt { wild: i % 3 == 0, anim: 8 }, true, Aspect::Values)
}
pub fn p23(r: &mut Rng, _: u64) -> R {
    document_same(r, Opt { wild: false, anim: 2 }, true, Aspect::Kinds)
}
pub fn p21(r: &mut Rng, _: u64) -> R {
    let o = Opt { wild: r.chance(1, 2), anim: 3 };
    let mut s = json!({"ty": if r.chance(1, 2) { "gf" } else { "gs" }, "g": stops(r, o), "o": {"k": 100}, "w": {"k": 1}, "s": {"a": 1, "k": [{"t": 0, "s": [0, 0]}, {"t": 1, "s": [0, 0]}]}, "e": {"k": [0, 0]}});
    put(&mut s, "t", json!(1 + r.below(2)));
    let doc = json!({"fr": 1, "ip": 0, "op": 1, "w": 1, "h": 1, "layers": [{"ty": 4, "ip": 0, "op": 1, "ks": {"p": {"k": [0, 0]}}, "shapes": [s]}]});
    let got = velato::Composition::from_json(doc.clone()).map_err(|e| format!("document not accepted: {e}; {doc}"))?;
    list_same("composition", &got.layers, &layers_of(&doc["layers"]), Aspect::Kinds).map_err(|e| format!("{e}; document {doc}"))
}
/// drops, empties, shortens or replaces something somewhere
fn damage(r: &mut Rng, v: &mut J) {
    match v {
        J::Object(o) if !o.is_empty() => {
            let k = o.keys().nth(r.below(o.len())).unwrap().clone();
            if r.chance(1, 6) {
                if r.chance(1, 2) {
                    o.remove(&k);
                } else {
                    o.insert(k, r.pick(&[json!([]), json!(null), json!(0), json!(1e300), json!(-1), json!([1, 2]), json!([[]]), json!({"k": []})]));
                }
            } else {
                damage(r, &mut o[&k]);
            }
        }
        J::Array(a) if !a.is_empty() => {
            let n = r.below(a.len());
            match r.below(8) {
                0 => {
                    a.remove(n);
                }
                1 => a.truncate(n),
                2 => a.clear(),
                3 => {
                    let x = a[n].clone();
                    a.push(x);
                }
                _ => damage(r, &mut a[n]),
            }
        }
        v => *v = r.pick(&[json!(0), json!(1), json!(-1), json!(1e300), json!([]), json!(true), json!("x"), json!(4294967296u64)]),
    }
}
pub fn p22(r: &mut Rng, i: u64) -> R {
    let mut doc = document(r, Opt { wild: true, anim: 4 }, i % 2 == 0);
    for _ in 0..r.below(4) {
        damage(r, &mut doc);
    }
    let text = doc.to_string();
    let out = std::panic::catch_unwind(|| {
        if text.len() % 2 == 0 { velato::Composition::from_slice(&text).map(|c| c.layers.iter().map(count_shapes).sum::<usize>()) } else { text.parse::<velato::Composition>().map(|c| c.layers.iter().map(count_shapes).sum::<usize>()) }
    });
    match out {
        Ok(_) => Ok(()),
        Err(e) => {
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {s}; document {text}"))
        }
    }
}

/// what loading gave, with the assets in a fixed order
fn told(c: Result<velato::Composition, velato::Error>) -> String {
    match c {
        Ok(mut c) => {
            let mut assets: Vec<_> = c.assets.drain().collect();
            assets.sort_by(|a, b| a.0.cmp(&b.0));
            format!("{c:?} {assets:?}")
        }
        Err(e) => format!("error: {e}, {e:?}"),
    }
}
fn told_error(e: &serde_json::Error) -> String {
    format!("error: Error parsing lottie: {e}, Json({e:?})")
}
/// bytes, text and JSON values of one document load alike, and fail as the parser fails
pub fn p29(r: &mut Rng, i: u64) -> R {
    let wild = r.chance(1, 2);
    let mut doc = document(r, Opt { wild, anim: 4 }, i % 4 == 0);
    let damaged = r.chance(1, 3);
    if damaged {
        for _ in 0..1 + r.below(3) {
            damage(r, &mut doc);
        }
    }
    let mut text = if r.chance(1, 2) { doc.to_string() } else { format!(" \n{doc:#}\r\n") };
    // numbers as the parser reads them (it need not round to the nearest)
    doc = serde_json::from_str(&text).unwrap();
    let broken = r.chance(1, 6);
    if broken {
        match r.below(4) {
            0 => text.truncate((0..=r.below(text.len())).rev().find(|k| text.is_char_boundary(*k)).unwrap()),
            1 => text.push_str(r.pick(&["x", "}", "{}", "\0", "null"])),
            2 => text.insert_str(0, r.pick(&["\u{feff}", "[", "//\n", "\u{a0}"])),
            _ => text.clear(),
        }
    }
    let mut bytes = text.clone().into_bytes();
    if broken && r.chance(1, 4) && !bytes.is_empty() {
        let k = r.below(bytes.len());
        bytes[k] = 0xff;
    }
    use velato::schema::Animation;
    let check = |what: &str, got: Result<velato::Composition, velato::Error>, want: &Result<Animation, serde_json::Error>| -> Result<Option<velato::Composition>, String> {
        match (got, want) {
            (Ok(c), Ok(_)) => Ok(Some(c)),
            (Err(e), Err(w)) => {
                let (a, b) = (told(Err(e)), told_error(w));
                if a == b { Ok(None) } else { Err(format!("{what}: {a}, expected {b}; text {text}")) }
            }
            (Ok(_), Err(w)) => Err(format!("{what}: loaded although parsing fails with {w}; text {text}")),
            (Err(e), Ok(_)) => Err(format!("{what}: {e} although it parses; text {text}")),
        }
    };
    let from_text = check("text", text.parse(), &serde_json::from_str(&text))?;
    let from_bytes = check("bytes", velato::Composition::from_slice(&bytes), &serde_json::from_slice(&bytes))?;
    let value: Result<J, _> = serde_json::from_str(&text);
    let from_value = match value {
        Ok(v) => check("value", velato::Composition::from_json(v.clone()), &serde_json::from_value(v))?,
        Err(_) => None,
    };
    let loaded = [("text", from_text), ("bytes", from_bytes), ("value", from_value)];
    if !broken && !damaged && !wild {
        for (n, c) in &loaded {
            let Some(c) = c else { bail!("{n}: document not accepted: {doc}") };
            import_same(&doc, c, if i % 4 == 0 { Aspect::Kinds } else if i % 2 == 0 { Aspect::Links } else { Aspect::Attributes }).map_err(|e| format!("{n}: {e}"))?;
        }
    }
    let mut shown: Vec<(&str, String)> = loaded.into_iter().filter_map(|(n, c)| c.map(|c| (n, told(Ok(c))))).collect();
    while let Some((n, a)) = shown.pop() {
        if let Some((k, b)) = shown.iter().find(|(_, b)| *b != a) {
            bail!("{n} loads as {a}, {k} as {b}; text {text}");
        }
    }
    Ok(())
}

/// layers, assets and path keyframes are read as the kind they declare
pub fn p31(r: &mut Rng, i: u64) -> R {
    use velato::schema::animated_properties::{shape_keyframe::ShapeKeyframe, shape_property::deserialize_keyframes};
    use velato::schema::assets::{AnyAsset, image::{Image, seq_from_str}, precomposition::Precomposition};
    use velato::schema::layers::{AnyLayer, image::ImageLayer, null::NullLayer, precomposition::PrecompositionLayer, shape::ShapeLayer, solid::SolidLayer};
    fn alike<T: std::fmt::Debug>(what: &str, doc: &J, got: Result<T, serde_json::Error>, want: Option<T>) -> R {
        match (got, want) {
            (Ok(a), Some(b)) => {
                let (a, b) = (format!("{a:?}"), format!("{b:?}"));
                if a == b { Ok(()) } else { Err(format!("{what} read as {a}, expected {b}; from {doc}")) }
            }
            (Err(_), None) => Ok(()),
            (Ok(a), None) => Err(format!("{what} read as {a:?}, expected an error; from {doc}")),
            (Err(e), Some(b)) => Err(format!("{what} not read: {e}, expected {b:?}; from {doc}")),
        }
    }
    fn as_<T: serde::de::DeserializeOwned>(v: &J) -> Option<T> {
        serde_json::from_value(v.clone()).ok()
    }
    let o = Opt { wild: r.chance(1, 2), anim: 4 };
    match i % 4 {
        0 | 1 => {
            let mut d = layer(r, o, 2, false);
            if r.chance(1, 3) {
                damage(r, &mut d);
            }
            if r.chance(1, 4) {
                put(&mut d, "ty", r.pick(&[json!(0), json!(1), json!(2), json!(3), json!(4), json!(5), json!(6), json!(13), json!(-1), json!(4.0), json!("4"), json!(null), json!(true), json!(1u64 << 32), json!((1u64 << 32) + 4), json!(256 + 4)]));
            }
            if r.chance(1, 20) && d.is_object() {
                d.as_object_mut().unwrap().remove("ty");
            }
            if r.chance(1, 3) && d.is_object() {
                // every kind's own members at once
                for (k, v) in [("refId", json!("a1")), ("w", json!(5)), ("h", json!(6)), ("sw", json!(7)), ("sh", json!(8)), ("sc", json!("#00ff00")), ("shapes", json!([]))] {
                    put(&mut d, k, v);
                }
            }
            let want = match d.get("ty").and_then(J::as_u64) {
                Some(0) => as_::<PrecompositionLayer>(&d).map(AnyLayer::Precomposition),
                Some(1) => as_::<SolidLayer>(&d).map(AnyLayer::Solid),
                Some(2) => as_::<ImageLayer>(&d).map(AnyLayer::Image),
                Some(3) => as_::<NullLayer>(&d).map(AnyLayer::Null),
                Some(4) => as_::<ShapeLayer>(&d).map(AnyLayer::Shape),
                _ => None,
            };
            alike("layer", &d, serde_json::from_value(d.clone()), want)
        }
        2 => {
            let mut d = json!({"id": "a"});
            for (k, v) in [("nm", json!("n")), ("p", json!("x.png")), ("e", json!(1)), ("u", json!("dir/"))] {
                if r.chance(3, 4) {
                    put(&mut d, k, v);
                }
            }
            for k in ["w", "h"] {
                if r.chance(1, 2) {
                    put(&mut d, k, r.pick(&[json!(5), json!(0), json!(2.5), json!(null), json!("x")]));
                }
            }
            if r.chance(1, 2) {
                put(&mut d, "t", r.pick(&[json!("seq"), json!(""), json!("SEQ"), json!("seq "), json!(3), json!(2), json!(3.0), json!(null), json!("3")]));
            }
            if r.chance(1, 3) {
                let l = layer_list(r, o, 2, false);
                put(&mut d, "layers", r.pick(&[l.clone(), l, json!([]), json!(null), json!(1)]));
            }
            if r.chance(1, 10) {
                d.as_object_mut().unwrap().remove("id");
            }
            let has = |k: &str| d.get(k).is_some();
            let want = if has("layers") {
                as_::<Precomposition>(&d).map(AnyAsset::Precomposition)
            } else if d.get("t").and_then(J::as_u64) == Some(3) || !(has("w") || has("h")) {
                None
            } else {
                // the member "t" of an image, when there is one, is text
                let mut e = d.clone();
                let t = e.as_object_mut().unwrap().remove("t");
                let image = as_::<Image>(&e).map(|i| Image { sequence: t.as_ref().filter(|t| *t == "seq").map(|_| true), ..i });
                if t.as_ref().is_some_and(|t| !t.is_string()) { None } else { image.map(AnyAsset::Image) }
            };
            alike("asset", &d, serde_json::from_value(d.clone()), want)?;
            let t = r.pick(&[json!("seq"), json!(""), json!("Seq"), json!("seqs"), json!(3), json!(null)]);
            let want = t.as_str().map(|t| if t == "seq" { Some(true) } else { None });
            alike("sequence", &t, seq_from_str(t.clone()), want)
        }
        _ => {
            let n = if r.chance(1, 16) { 5 + r.below(12) } else { r.below(5) };
            let mut ks: Vec<J> = vec![];
            for k in 0..n {
                let mut f = json!({"t": k});
                if r.chance(if k + 1 == n { 1 } else { 6 }, if k + 1 == n { 2 } else { 7 }) {
                    put(&mut f, "s", r.pick(&[json!([{"v": [[1, 2]], "i": [[0, 0]], "o": [[0, 0]]}]), json!([])]));
                }
                if r.chance(1, 4) {
                    put(&mut f, "e", json!([{"v": [[3, 4]], "i": [[0, 0]], "o": [[0, 0]]}]));
                }
                ks.push(f);
            }
            let ok = ks.iter().take(n.saturating_sub(1)).all(|k| k.get("s").is_some()) && !(n == 1 && ks[0].get("s").is_none());
            let mut d = J::Array(ks);
            if r.chance(1, 20) {
                d = json!({"k": d});
            }
            let want = as_::<Vec<ShapeKeyframe>>(&d).filter(|_| ok);
            alike("path keyframes", &d, deserialize_keyframes(d.clone()), want)
        }
    }
}
