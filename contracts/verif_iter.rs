//! Iterator chains as sequences. The extractor replaces `x.iter()`, `x.into_iter()`, `x.chunks_exact(n)` by a
//! sequence value and keeps every adaptor and closure of the chain; the adaptors' contracts below are those of
//! the standard library. The chain is taken eagerly: closures are `Fn`, so the order of evaluation is unobservable.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use std::collections::HashMap;
use std::hash::Hash;
verus! {
/// a finite sequence of items that is consumed
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sq<T> { v: Vec<T> }
impl<T> View for Sq<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
/// a sequence followed by endless copies of one item
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Tailed<T> { v: Vec<T>, tail: T }
impl<T> Tailed<T> { pub uninterp spec fn head(&self) -> Seq<T>; pub uninterp spec fn rest(&self) -> T; }
pub struct Endless<T> { pub item: T }
pub fn repeat<T>(item: T) -> (r: Endless<T>) ensures r.item == item { Endless { item } }


pub trait IntoSq: Sized { type Item; spec fn sq_spec(self) -> Seq<Self::Item>; }
impl<T> IntoSq for Sq<T> { type Item = T; open spec fn sq_spec(self) -> Seq<T> { self@ } }
impl<T> IntoSq for Vec<T> { type Item = T; open spec fn sq_spec(self) -> Seq<T> { self@ } }
impl<'a, T> IntoSq for &'a Vec<T> { type Item = &'a T; open spec fn sq_spec(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<'a, T> IntoSq for &'a [T] { type Item = &'a T; open spec fn sq_spec(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<'a, T, const N: usize> IntoSq for &'a [T; N] { type Item = &'a T; open spec fn sq_spec(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<T, const N: usize> IntoSq for [T; N] { type Item = T; open spec fn sq_spec(self) -> Seq<T> { self@ } }
impl<T> IntoSq for Option<T> { type Item = T; open spec fn sq_spec(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } } }
/// the items of a collection
#[verifier::external_body]
pub fn sq<I: IntoSq>(i: I) -> (r: Sq<I::Item>) ensures r@ == i.sq_spec(), r@.len() <= usize::MAX { unimplemented!() }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
#[verifier::external_body]
pub fn iter<'a, T>(s: &'a [T]) -> (r: Sq<&'a T>) ensures r@ == refs(s@), r@.len() <= usize::MAX { unimplemented!() }
/// groups of exactly `n` items; a shorter remainder is left out
#[verifier::external_body]
pub fn chunks_exact<'a, T>(s: &'a [T], n: usize) -> (r: Sq<&'a [T]>)
    requires n != 0
    ensures r@.len() == s@.len() / (n as nat), r@.len() <= usize::MAX,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(i * n, i * n + n)
{ unimplemented!() }
#[verifier::external_body]
pub fn extend<T, I: IntoSq<Item = T>>(v: &mut Vec<T>, i: I) ensures final(v)@ == old(v)@ + i.sq_spec() { unimplemented!() }

/// the argument of `zip`
pub trait ZipArg: Sized { type Item; spec fn z_len(&self, n: nat) -> nat; spec fn z_at(&self, i: int) -> Self::Item; }
impl<T> ZipArg for Sq<T> { type Item = T; open spec fn z_len(&self, n: nat) -> nat { if n <= self@.len() { n } else { self@.len() } } open spec fn z_at(&self, i: int) -> T { self@[i] } }
impl<T> ZipArg for Vec<T> { type Item = T; open spec fn z_len(&self, n: nat) -> nat { if n <= self@.len() { n } else { self@.len() } } open spec fn z_at(&self, i: int) -> T { self@[i] } }
impl<'a, T> ZipArg for &'a Vec<T> { type Item = &'a T; open spec fn z_len(&self, n: nat) -> nat { if n <= self@.len() { n } else { self@.len() } } open spec fn z_at(&self, i: int) -> &'a T { &self@[i] } }
impl<T> ZipArg for Tailed<T> { type Item = T; open spec fn z_len(&self, n: nat) -> nat { n } open spec fn z_at(&self, i: int) -> T { if i < self.head().len() { self.head()[i] } else { self.rest() } } }
/// the argument of `chain`
pub trait ChainArg<T>: Sized { type Out; spec fn chained(&self, s: Seq<T>, o: Self::Out) -> bool; }
impl<T> ChainArg<T> for Sq<T> { type Out = Sq<T>; open spec fn chained(&self, s: Seq<T>, o: Sq<T>) -> bool { o@ == s + self@ } }
impl<T> ChainArg<T> for Endless<T> { type Out = Tailed<T>; open spec fn chained(&self, s: Seq<T>, o: Tailed<T>) -> bool { o.head() == s && o.rest() == self.item } }
/// what `collect` builds
pub trait FromSq<T>: Sized { spec fn from_sq(s: Seq<T>, r: Self) -> bool; }
impl<T> FromSq<T> for Vec<T> { open spec fn from_sq(s: Seq<T>, r: Vec<T>) -> bool { r@ == s } }
impl<K: Eq + Hash, V> FromSq<(K, V)> for HashMap<K, V> { open spec fn from_sq(s: Seq<(K, V)>, r: HashMap<K, V>) -> bool { true } }
/// what `flatten` opens
pub trait Flat: Sized { type Item; spec fn flat(self) -> Seq<Self::Item>; }
impl<T, const N: usize> Flat for [T; N] { type Item = T; open spec fn flat(self) -> Seq<T> { self@ } }
impl<T> Flat for Vec<T> { type Item = T; open spec fn flat(self) -> Seq<T> { self@ } }
impl<T> Flat for Option<T> { type Item = T; open spec fn flat(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } } }
pub open spec fn flat_all<F: Flat>(s: Seq<F>) -> Seq<F::Item> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat_all(s.drop_last()) + s.last().flat() }
}
pub open spec fn min_len(n: usize, l: nat) -> int { if n < l { n as int } else { l as int } }
impl<T> Sq<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires self@.len() <= usize::MAX ensures r == self@.len() { unimplemented!() }
    /// moves the next item out (used by the desugared `for` loop, once per index)
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Sq<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false), r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r is None ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
            r is Some ==> r->Some_0 < self@.len() && f.ensures((self@[r->Some_0 as int],), true) && forall|i: int| 0 <= i < r->Some_0 ==> f.ensures((#[trigger] self@[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) requires self@.len() <= usize::MAX ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: Sq<T>) ensures r@ == self@.take(min_len(n, self@.len())) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Sq<T>) ensures r@ == self@.skip(min_len(n, self@.len())) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: Sq<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: Sq<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<Z: ZipArg>(self, z: Z) -> (r: Sq<(T, Z::Item)>)
        ensures r@.len() == z.z_len(self@.len()), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (self@[i], z.z_at(i))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<C: ChainArg<T>>(self, c: C) -> (r: C::Out) ensures c.chained(self@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromSq<T>>(self) -> (r: C) ensures C::from_sq(self@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten(self) -> (r: Sq<T::Item>) where T: Flat ensures r@ == flat_all(self@) { unimplemented!() }
}
impl<'a, T: Copy> Sq<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: Sq<T>) ensures r@ == Seq::new(self@.len(), |i: int| *self@[i]) { unimplemented!() }
}
}
