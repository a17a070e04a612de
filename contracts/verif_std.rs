//! Contracts of standard-library functions that vstd does not cover (assumed).  The code as it
//! stands uses only the first; the rest are there so that a change using them stays within reach.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use vstd::float::*;
use vstd::std_specs::cmp::OrdSpec;
verus! {
pub fn or_bool(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });

pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->Some_0,))
    ensures r is None || r == o, o is Some ==> p.ensures((&o->Some_0,), r is Some);
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { b });
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(())
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T> [Option::<T>::xor] (o: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && b is None { o } else if o is None && b is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::and::<U>] (o: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::zip::<U>] (o: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && b is Some { Some((o->Some_0, b->Some_0)) } else { None });
pub assume_specification<T, P: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, p: P) -> (r: bool)
    requires o is Some ==> p.requires((o->Some_0,))
    ensures o is None ==> !r, o is Some ==> p.ensures((o->Some_0,), r);
pub assume_specification<T, P: FnOnce(T) -> bool> [Option::<T>::is_none_or] (o: Option<T>, p: P) -> (r: bool)
    requires o is Some ==> p.requires((o->Some_0,))
    ensures o is None ==> r, o is Some ==> p.ensures((o->Some_0,), r);
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or::<U, F>] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,))
    ensures o is None ==> r == d, o is Some ==> f.ensures((o->Some_0,), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else::<U, D, F>] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)), o is None ==> d.requires(())
    ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->Some_0,), r);
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T> [Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None });
pub assume_specification<T, F: FnOnce() -> T> [Option::<T>::get_or_insert_with] (o: &mut Option<T>, f: F) -> (r: &mut T)
    requires *old(o) is None ==> f.requires(())
    ensures *old(o) is Some ==> *r == (*old(o))->Some_0, *old(o) is None ==> f.ensures((), *r), *final(o) == Some(*final(r));
pub assume_specification<T> [bool::then_some::<T>] (b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None });
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T: Default> [core::mem::take::<T>] (a: &mut T) -> (r: T) ensures r == *old(a), T::default.ensures((), *final(a));
pub assume_specification<T> [<[T]>::reverse] (v: &mut [T]) ensures (*final(v))@ == old(v)@.reverse();
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });

pub uninterp spec fn f_floor(x: f64) -> f64;
pub uninterp spec fn f_ceil(x: f64) -> f64;
pub uninterp spec fn f_trunc(x: f64) -> f64;
pub uninterp spec fn f_sqrt(x: f64) -> f64;
pub uninterp spec fn f_hypot(x: f64, y: f64) -> f64;
pub uninterp spec fn f_powi(x: f64, n: i32) -> f64;
pub uninterp spec fn f_mul_add(x: f64, a: f64, b: f64) -> f64;
pub uninterp spec fn f_degrees(x: f64) -> f64;
pub uninterp spec fn f_signum(x: f64) -> f64;
pub assume_specification [f64::floor] (x: f64) -> (r: f64) ensures r == f_floor(x);
pub assume_specification [f64::ceil] (x: f64) -> (r: f64) ensures r == f_ceil(x);
pub assume_specification [f64::trunc] (x: f64) -> (r: f64) ensures r == f_trunc(x);
pub assume_specification [f64::sqrt] (x: f64) -> (r: f64) ensures r == f_sqrt(x);
pub assume_specification [f64::hypot] (x: f64, y: f64) -> (r: f64) ensures r == f_hypot(x, y);
pub assume_specification [f64::powi] (x: f64, n: i32) -> (r: f64) ensures r == f_powi(x, n);
pub assume_specification [f64::mul_add] (x: f64, a: f64, b: f64) -> (r: f64) ensures r == f_mul_add(x, a, b);
pub assume_specification [f64::sin_cos] (x: f64) -> (r: (f64, f64)) ensures r == (crate::verif_spec::f_sin(x), crate::verif_spec::f_cos(x));
pub assume_specification [f64::to_degrees] (x: f64) -> (r: f64) ensures r == f_degrees(x);
pub assume_specification [f64::recip] (x: f64) -> (r: f64) ensures r == 1.0f64.ieee_div(x);
pub assume_specification [f64::signum] (x: f64) -> (r: f64) ensures r == f_signum(x);
pub assume_specification [f64::is_finite] (x: f64) -> (r: bool) ensures r == !(x.ieee_is_nan() || x.ieee_is_infinite());
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == (a + b - 1) / (b as int);
pub assume_specification [usize::rem_euclid] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == a as int % b as int;
pub assume_specification [usize::div_euclid] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == a as int / b as int;
pub assume_specification [usize::isqrt] (a: usize) -> (r: usize) ensures r * r <= a < (r + 1) * (r + 1);
pub assume_specification [usize::ilog2] (a: usize) -> (r: u32) requires a > 0 ensures r < usize::BITS, vstd::arithmetic::power2::pow2(r as nat) <= a < vstd::arithmetic::power2::pow2((r + 1) as nat);
pub assume_specification [usize::is_power_of_two] (a: usize) -> (r: bool) ensures r == (exists|k: nat| a == #[trigger] vstd::arithmetic::power2::pow2(k));
pub assume_specification<T: core::cmp::Ord> [core::cmp::min::<T>] (a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification<T: core::cmp::Ord> [core::cmp::max::<T>] (a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b });
pub assume_specification<T> [<[T]>::swap] (v: &mut [T], i: usize, j: usize) requires i < old(v)@.len(), j < old(v)@.len() ensures (*final(v))@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]);
pub assume_specification<T, P: FnMut(&T) -> bool> [<[T]>::partition_point] (v: &[T], p: P) -> (r: usize)
    requires forall|i: int| 0 <= i < v@.len() ==> p.requires((&v@[i],))
    ensures r <= v@.len(), r > 0 ==> p.ensures((&v@[r - 1],), true), r < v@.len() ==> p.ensures((&v@[r as int],), false);
pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else] (o: Result<T, E>, f: F) -> (r: T)
    requires o is Err ==> f.requires((o->Err_0,))
    ensures o is Ok ==> r == o->Ok_0, o is Err ==> f.ensures((o->Err_0,), r);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> f.requires((o->Ok_0,))
    ensures o is Ok ==> f.ensures((o->Ok_0,), r), o is Err ==> r == Err::<U, E>(o->Err_0);
pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (r: bool)
    requires o is Ok ==> f.requires((o->Ok_0,))
    ensures o is Err ==> !r, o is Ok ==> f.ensures((o->Ok_0,), r);
pub assume_specification<T: Default, E> [Result::<T, E>::unwrap_or_default] (o: Result<T, E>) -> (r: T) ensures o is Ok ==> r == o->Ok_0, o is Err ==> T::default.ensures((), r);
pub uninterp spec fn f_pair(k: int, x: f64, y: f64) -> f64;
pub uninterp spec fn f_bit(k: int, x: f64) -> bool;
pub assume_specification [f64::exp] (x: f64) -> (r: f64) ensures r == f_pair(1, x, x);
pub assume_specification [f64::cbrt] (x: f64) -> (r: f64) ensures r == f_pair(2, x, x);
pub assume_specification [f64::fract] (x: f64) -> (r: f64) ensures r == f_pair(3, x, x);
pub assume_specification [f64::round_ties_even] (x: f64) -> (r: f64) ensures r == f_pair(4, x, x);
pub assume_specification [f64::atan2] (x: f64, y: f64) -> (r: f64) ensures r == f_pair(6, x, y);
pub assume_specification [f64::copysign] (x: f64, y: f64) -> (r: f64) ensures r == f_pair(7, x, y);
pub assume_specification [f64::midpoint] (x: f64, y: f64) -> (r: f64) ensures r == f_pair(8, x, y);
pub assume_specification [f64::div_euclid] (x: f64, y: f64) -> (r: f64) ensures r == f_pair(9, x, y);
pub assume_specification [f64::is_sign_negative] (x: f64) -> (r: bool) ensures r == f_bit(0, x);
pub assume_specification [f64::is_sign_positive] (x: f64) -> (r: bool) ensures r == !f_bit(0, x);
pub assume_specification [f64::is_normal] (x: f64) -> (r: bool) ensures r == f_bit(1, x);
pub assume_specification [f64::is_subnormal] (x: f64) -> (r: bool) ensures r == f_bit(2, x);
pub assume_specification [f64::is_infinite] (x: f64) -> (r: bool) ensures r == x.ieee_is_infinite();
}
