@file runtime/model/value.rs
@wrap enum Value
@wrap enum ValueRef
@wrap struct Easing
@wrap struct EasingHandle
@wrap impl Easing
@wrap struct Time
@wrap struct Animated
@wrap trait Tween
@items trait Tween
    /// the interpolated value (defined by each implementation)
    spec fn tween_spec(&self, other: &Self, t: f64, easing: &Easing) -> Self;
    /// cloning returns an equal value
    proof fn lemma_clone(a: Self, b: Self) requires cloned(a, b) ensures a == b;
    /// exact end points
    proof fn lemma_ends(a: Self, b: Self, t: f64, e: Easing)
        ensures t.ieee_le(0.0f64) ==> a.tween_spec(&b, t, &e) == a,
            t.ieee_ge(1.0f64) ==> a.tween_spec(&b, t, &e) == b;
@fn trait Tween::tween
@ret r
@spec
    ensures r == self.tween_spec(other, t, easing)
@end
@fn Value::evaluate
@ret r
@spec
    ensures r == self.eval_or(frame, default_of::<T>())
@outline T::default()
crate::verif_spec::w_default::<T>()
@entry
@exit
    proof { if let Value::Fixed(v) = self { T::lemma_clone(*v, __ret); } }
@fn <Default for Value>::default
@ret r
@spec
    ensures r == Value::Fixed(default_of::<T>())
@outline T::default()
crate::verif_spec::w_default::<T>()
@fn Value::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Value::evaluate_or
@ret r
@spec
    ensures r == self.eval_or(frame, default)
@exit
    proof { if let Value::Fixed(v) = self { T::lemma_clone(*v, __ret); } }
@fn <AsRef for ValueRef>::as_ref
@ret r
@spec
    ensures *r == self.val()
@fn ValueRef::into_owned
@ret r
@spec
    requires forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b,
    ensures r == self.val()
@entry
    let ghost me = self;
@exit
    proof { if let ValueRef::Borrowed(v) = me { assert(cloned(*v, __ret)); } }
@fn Time::frames_and_weight
@ret r
@desugar option
@spec
    ensures r == fw_spec(times@, frame),
        times@.len() > 0 ==> 0 <= fw_ix0(times@, frame) < times@.len() && 0 <= fw_ix1(times@, frame) < times@.len(),
        r is Some ==> (r->0).0[0] as int == fw_ix0(times@, frame) && (r->0).0[1] as int == fw_ix1(times@, frame),
@entry
    broadcast use ax_bs;
    proof { lemma_01(); }
    let ghost key = |x: Time| cmp_time(x, frame);
@closure 0
|x: &Time| -> (o: core::cmp::Ordering) ensures o == cmp_time(*x, frame)
@fn Animated::evaluate_or
@ret r
@spec
    ensures r == self.at(frame, default)
@fn Animated::evaluate_inner
@ret r
@spec
    ensures r == self.at_opt(frame)
@fn <Tween for f64>::tween
@ret r
@desugar option
@outline $r.iter().copied().find(|&$x| (-$e..=1.0 + $f).contains(&$y))
crate::verif_spec::w_find_root(&$r, $e)
//# the implementation's own spec function is named, so that its definition precedes the proof
@entry
    proof { assert(<f64 as Tween>::tween_spec(self, other, t, easing) == self.tween_spec(other, t, easing)); }
@items impl <Tween for f64>
    open spec fn tween_spec(&self, other: &Self, t: f64, easing: &Easing) -> Self { f64_tween(*self, *other, t, *easing) }
    proof fn lemma_clone(a: Self, b: Self) { }
    proof fn lemma_ends(a: Self, b: Self, t: f64, e: Easing) {
        assert(!(t.ieee_le(0.0f64) && t.ieee_ge(1.0f64))) by(bit_vector);
    }
@fn <Tween for Point>::tween
//# the implementation's own spec function is named, so that its definition precedes the proof
@entry
    proof { assert(<kurbo::Point as Tween>::tween_spec(self, other, t, easing) == self.tween_spec(other, t, easing)); }
@items impl <Tween for Point>
    open spec fn tween_spec(&self, other: &Self, t: f64, easing: &Easing) -> Self { 
      kurbo::Point { x: f64_tween(self.x, other.x, t, *easing), y: f64_tween(self.y, other.y, t, *easing) } }
    proof fn lemma_clone(a: Self, b: Self) { }
    proof fn lemma_ends(a: Self, b: Self, t: f64, e: Easing) {
        assert(!(t.ieee_le(0.0f64) && t.ieee_ge(1.0f64))) by(bit_vector);
    }
@fn <Tween for Vec2>::tween
//# the implementation's own spec function is named, so that its definition precedes the proof
@entry
    proof { assert(<kurbo::Vec2 as Tween>::tween_spec(self, other, t, easing) == self.tween_spec(other, t, easing)); }
@items impl <Tween for Vec2>
    open spec fn tween_spec(&self, other: &Self, t: f64, easing: &Easing) -> Self { 
      kurbo::Vec2 { x: f64_tween(self.x, other.x, t, *easing), y: f64_tween(self.y, other.y, t, *easing) } }
    proof fn lemma_clone(a: Self, b: Self) { }
    proof fn lemma_ends(a: Self, b: Self, t: f64, e: Easing) {
        assert(!(t.ieee_le(0.0f64) && t.ieee_ge(1.0f64))) by(bit_vector);
    }
@fn <Tween for Size>::tween
//# the implementation's own spec function is named, so that its definition precedes the proof
@entry
    proof { assert(<kurbo::Size as Tween>::tween_spec(self, other, t, easing) == self.tween_spec(other, t, easing)); }
@items impl <Tween for Size>
    open spec fn tween_spec(&self, other: &Self, t: f64, easing: &Easing) -> Self { 
      kurbo::Size { width: f64_tween(self.width, other.width, t, *easing), height: f64_tween(self.height, other.height, t, *easing) } }
    proof fn lemma_clone(a: Self, b: Self) { }
    proof fn lemma_ends(a: Self, b: Self, t: f64, e: Easing) {
        assert(!(t.ieee_le(0.0f64) && t.ieee_ge(1.0f64))) by(bit_vector);
    }
@fn <Tween for Color>::tween
@desugar cast
@outline self.components
crate::verif_spec::w_components(self)
@outline other.components
crate::verif_spec::w_components(other)
@outline peniko::Color::new($x)
crate::verif_spec::w_color($x)
//# the implementation's own spec function is named, so that its definition precedes the proof
@entry
    proof { assert(<peniko::Color as Tween>::tween_spec(self, other, t, easing) == self.tween_spec(other, t, easing)); }
@items impl <Tween for Color>
    open spec fn tween_spec(&self, other: &Self, t: f64, easing: &Easing) -> Self { 
      color_new([
        c_f32(f64_tween(c_f64(color_comps(*self)[0]), c_f64(color_comps(*other)[0]), t, *easing)),
        c_f32(f64_tween(c_f64(color_comps(*self)[1]), c_f64(color_comps(*other)[1]), t, *easing)),
        c_f32(f64_tween(c_f64(color_comps(*self)[2]), c_f64(color_comps(*other)[2]), t, *easing)),
        c_f32(f64_tween(c_f64(color_comps(*self)[3]), c_f64(color_comps(*other)[3]), t, *easing))]) }
    proof fn lemma_clone(a: Self, b: Self) { }
    proof fn lemma_ends(a: Self, b: Self, t: f64, e: Easing) {
        assert(!(t.ieee_le(0.0f64) && t.ieee_ge(1.0f64))) by(bit_vector);
        broadcast use {ax_color_new, ax_f32_roundtrip};
    }
@end
@append
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields};
pub open spec fn cmp_time(x: Time, frame: f64) -> core::cmp::Ordering {
    if x.frame.ieee_lt(frame) { core::cmp::Ordering::Less } else if x.frame.ieee_gt(frame) { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
pub open spec fn easing_of(t: Time) -> Easing {
    Easing {
        o: match t.out_tangent { Some(o) => o, None => EasingHandle { x: 0.0f64, y: 0.0f64 } },
        i: match t.in_tangent { Some(i) => i, None => EasingHandle { x: 1.0f64, y: 1.0f64 } },
    }
}
/// index of the keyframe whose interval contains `frame`
pub open spec fn fw_ix0(times: Seq<Time>, frame: f64) -> int {
    match bs_result(times, |x: Time| cmp_time(x, frame)) {
        Ok(i) => i as int,
        Err(i) => if i == 0 { 0 } else { i - 1 },
    }
}
pub open spec fn fw_ix1(times: Seq<Time>, frame: f64) -> int {
    let i = fw_ix0(times, frame);
    if i + 1 < times.len() { i + 1 } else { times.len() - 1 }
}
pub open spec fn fw_weight(times: Seq<Time>, frame: f64) -> f64 {
    let t0 = times[fw_ix0(times, frame)].frame;
    let t1 = times[fw_ix1(times, frame)].frame;
    let t = frame.ieee_sub(t0).ieee_div(t1.ieee_sub(t0));
    f_clamp(if t.ieee_is_nan() { 0.0f64 } else { t }, 0.0f64, 1.0f64)
}
pub open spec fn fw_spec(times: Seq<Time>, frame: f64) -> Option<([usize; 2], f64, Easing, bool)> {
    if times.len() == 0 { None } else {
        let k = times[fw_ix0(times, frame)];
        Some(([fw_ix0(times, frame) as usize, fw_ix1(times, frame) as usize], fw_weight(times, frame), easing_of(k), k.hold))
    }
}
impl<T: Tween> Animated<T> {
    pub open spec fn at_opt(&self, frame: f64) -> Option<T> {
        if self.times@.len() == 0 { None } else {
            let i = fw_ix0(self.times@, frame); let j = fw_ix1(self.times@, frame);
            let k = self.times@[i];
            if i < self.values@.len() && j < self.values@.len() {
                Some(self.values@[i].tween_spec(&self.values@[j], if k.hold { 0.0f64 } else { fw_weight(self.times@, frame) }, &easing_of(k)))
            } else { None }
        }
    }
    pub open spec fn at(&self, frame: f64, default: T) -> T { match self.at_opt(frame) { Some(v) => v, None => default } }
}
impl<T: Tween> Value<T> {
    pub open spec fn fixed(&self) -> bool { self is Fixed }
    pub open spec fn eval_or(&self, frame: f64, default: T) -> T {
        match *self { Value::Fixed(v) => v, Value::Animated(a) => a.at(frame, default) }
    }
}
impl<T: Tween + Default> Value<T> {
    /// the value at a frame
    pub open spec fn eval(&self, frame: f64) -> T { self.eval_or(frame, default_of::<T>()) }
}
impl<'a, T> ValueRef<'a, T> {
    pub open spec fn val(&self) -> T { match *self { ValueRef::Borrowed(v) => *v, ValueRef::Owned(v) => v } }
}

/// ordinate of the easing curve (0,0) o i (1,1) at the abscissa t
pub open spec fn ease(t: f64, e: Easing) -> f64 {
    let x0 = 0.0f64; let x1 = e.o.x; let x2 = e.i.x; let x3 = 1.0f64;
    let c0 = x0;
    let c1 = 3.0f64.ieee_mul(x1.ieee_sub(x0));
    let c2 = 3.0f64.ieee_mul(x2.ieee_sub(2.0f64.ieee_mul(x1)).ieee_add(x0));
    let c3 = x3.ieee_sub(3.0f64.ieee_mul(x2)).ieee_add(3.0f64.ieee_mul(x1)).ieee_sub(x0);
    let m = f_max(f_max(f_max(f_abs(c0), f_abs(c1)), f_abs(c2)), f_abs(c3));
    let eps = 1e-12f64.ieee_mul(f_max(m, 1.0f64));
    let roots = solve_cubic_spec(c0.ieee_sub(t), c1, c2, c3);
    let u = match first_root(roots, eps) {
        Some(u) => u,
        None => if f_abs(c0.ieee_sub(t)).ieee_le(f_abs(c0.ieee_add(c1).ieee_add(c2).ieee_add(c3).ieee_sub(t))) { 0.0f64 } else { 1.0f64 },
    };
    cubic_eval(kurbo::CubicBez { p0: kurbo::Point { x: 0.0f64, y: 0.0f64 }, p1: kurbo::Point { x: e.o.x, y: e.o.y }, p2: kurbo::Point { x: e.i.x, y: e.i.y }, p3: kurbo::Point { x: 1.0f64, y: 1.0f64 } }, u).y
}
pub open spec fn f64_tween(a: f64, b: f64, t: f64, e: Easing) -> f64 {
    if t.ieee_le(0.0f64) { a } else if t.ieee_ge(1.0f64) { b } else { a.ieee_add(b.ieee_sub(a).ieee_mul(ease(t, e))) }
}
