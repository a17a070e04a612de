//! P31: layers, assets and path keyframes are read as the kind they declare.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use serde::{Deserialize, Deserializer};
use crate::schema::layers::AnyLayer;
use crate::schema::assets::AnyAsset;
use crate::schema::animated_properties::shape_keyframe::ShapeKeyframe;
verus! {
#[verifier::external_trait_specification]
pub trait ExStdError: core::fmt::Debug + core::fmt::Display { type ExternalTraitSpecificationFor: std::error::Error; }
#[verifier::external_trait_specification]
pub trait ExDisplay: core::marker::PointeeSized { type ExternalTraitSpecificationFor: core::fmt::Display; }
#[verifier::external_trait_specification]
pub trait ExDeError: Sized + std::error::Error {
    type ExternalTraitSpecificationFor: serde::de::Error;
    fn custom<T>(msg: T) -> Self where T: core::fmt::Display;
    fn missing_field(field: &'static str) -> Self;
}
#[verifier::external_trait_specification]
pub trait ExDeserializer<'de>: Sized { type ExternalTraitSpecificationFor: serde::Deserializer<'de>; type Error: serde::de::Error; }
#[verifier::external_trait_specification]
pub trait ExDeserialize<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::Deserialize<'de>;
    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error> where D: Deserializer<'de>;
}
#[verifier::external_trait_specification]
pub trait ExDeserializeOwned: for<'de> Deserialize<'de> { type ExternalTraitSpecificationFor: serde::de::DeserializeOwned; }

/// what a deserializer gives when asked for a `T`
pub uninterp spec fn read<'de, T, D: Deserializer<'de>>(d: D) -> Result<T, D::Error>;
pub assume_specification<'de, D: Deserializer<'de>> [<serde_json::Value as Deserialize<'de>>::deserialize::<D>] (d: D) -> (r: Result<serde_json::Value, D::Error>) ensures r == read::<serde_json::Value, D>(d);
pub assume_specification<'de, T: Deserialize<'de>, D: Deserializer<'de>> [<Vec<T> as Deserialize<'de>>::deserialize::<D>] (d: D) -> (r: Result<Vec<T>, D::Error>) ensures r == read::<Vec<T>, D>(d);
pub assume_specification<'de, D: Deserializer<'de>> [<String as Deserialize<'de>>::deserialize::<D>] (d: D) -> (r: Result<String, D::Error>) ensures r == read::<String, D>(d);
/// the member of an object, a value as a number, and a value as a `T`
pub uninterp spec fn json_at(v: serde_json::Value, k: Seq<char>) -> Option<serde_json::Value>;
pub uninterp spec fn json_u64(v: serde_json::Value) -> Option<u64>;
pub uninterp spec fn typed<T>(v: serde_json::Value) -> Result<T, serde_json::Error>;
#[verifier::external_body]
pub fn w_get<'a>(v: &'a serde_json::Value, k: &str) -> (r: Option<&'a serde_json::Value>)
    ensures r == (match json_at(*v, k@) { Some(x) => Some(&x), None => None })
{ v.get(k) }
pub assume_specification [serde_json::Value::as_u64] (v: &serde_json::Value) -> (r: Option<u64>) ensures r == json_u64(*v);
pub assume_specification [serde_json::Value::as_str] (v: &serde_json::Value) -> (r: Option<&str>);
pub assume_specification<T: serde::de::DeserializeOwned> [serde_json::from_value::<T>] (v: serde_json::Value) -> (r: Result<T, serde_json::Error>) ensures r == typed::<T>(v);
#[verifier::external_body]
pub fn w_str_is(s: &String, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }

pub open spec fn num_at(v: serde_json::Value, k: Seq<char>) -> Option<u64> { match json_at(v, k) { Some(x) => json_u64(x), None => None } }
/// the value read as a `T`, under the name `f` gives it; nothing if it cannot be read as one
pub open spec fn kind<T, L>(v: serde_json::Value, f: spec_fn(T) -> L) -> Option<L> { match typed::<T>(v) { Ok(x) => Some(f(x)), Err(_) => None } }
pub open spec fn layer_of(v: serde_json::Value) -> Option<AnyLayer> {
    match num_at(v, "ty"@) {
        Some(0) => kind(v, |x| AnyLayer::Precomposition(x)),
        Some(1) => kind(v, |x| AnyLayer::Solid(x)),
        Some(2) => kind(v, |x| AnyLayer::Image(x)),
        Some(3) => kind(v, |x| AnyLayer::Null(x)),
        Some(4) => kind(v, |x| AnyLayer::Shape(x)),
        _ => None,
    }
}
pub open spec fn asset_of(v: serde_json::Value) -> Option<AnyAsset> {
    if json_at(v, "layers"@) is Some { kind(v, |x| AnyAsset::Precomposition(x)) }
    else if num_at(v, "t"@) == Some(3u64) { None }
    else if json_at(v, "w"@) is Some || json_at(v, "h"@) is Some { kind(v, |x| AnyAsset::Image(x)) }
    else { None }
}
/// every keyframe but the last has a start; so has the only one
pub open spec fn starts_ok(ks: Seq<ShapeKeyframe>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() - 1 ==> (#[trigger] ks[i]).start is Some
    &&& ks.len() == 1 ==> ks[0].start is Some
}
/// an error exactly when the input has no meaning, and its meaning otherwise
pub open spec fn gives<T, E>(m: Option<T>, r: Result<T, E>) -> bool { match m { Some(x) => r == Ok::<T, E>(x), None => r is Err } }
pub open spec fn read_as<'de, V, T, D: Deserializer<'de>>(d: D, f: spec_fn(V) -> Option<T>, r: Result<T, D::Error>) -> bool {
    match read::<V, D>(d) { Ok(v) => gives(f(v), r), Err(e) => r == Err::<T, D::Error>(e) }
}
/// an item of a list is the item of each part of the list that holds it
pub broadcast proof fn lemma_part<T>(s: Seq<T>, a: int, b: int, i: int)
    ensures #![trigger s.subrange(a, b), s[i]] 0 <= a <= i < b <= s.len() ==> crate::verif_iter::refs(s.subrange(a, b))[i - a] == &s[i]
{ }
}
