//! P29: loading a document is parsing it and importing what was parsed.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::Error;
use crate::runtime::Composition;
use crate::schema::Animation;
use crate::verif_import::*;
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExJsonError(serde_json::Error);
/// serde's reading of bytes, of text and of a JSON value as a document
pub uninterp spec fn parsed_bytes(b: Seq<u8>) -> Result<Animation, serde_json::Error>;
pub uninterp spec fn parsed_text(s: Seq<char>) -> Result<Animation, serde_json::Error>;
pub uninterp spec fn parsed_json(v: serde_json::Value) -> Result<Animation, serde_json::Error>;
pub uninterp spec fn bytes_of<S>(s: S) -> Seq<u8>;
#[verifier::external_body]
pub fn w_from_slice(v: &[u8]) -> (r: Result<Animation, serde_json::Error>) ensures r == parsed_bytes(v@) { serde_json::from_slice(v) }
#[verifier::external_body]
pub fn w_from_str(s: &str) -> (r: Result<Animation, serde_json::Error>) ensures r == parsed_text(s@) { serde_json::from_str(s) }
#[verifier::external_body]
pub fn w_from_value(v: serde_json::Value) -> (r: Result<Animation, serde_json::Error>) ensures r == parsed_json(v) { serde_json::from_value(v) }
#[verifier::external_body]
pub fn w_bytes<S: AsRef<[u8]>>(s: &S) -> (r: &[u8]) ensures r@ == bytes_of(*s) { s.as_ref() }
/// the import of the parsed document, or the parser's error
pub open spec fn loaded(p: Result<Animation, serde_json::Error>, r: Result<Composition, Error>) -> bool {
    match p { Ok(d) => r is Ok && composition_is(r->Ok_0, d), Err(e) => r == Err::<Composition, Error>(Error::Json(e)) }
}
/// `?` converts an error with `From::from` (whose contract for this type is discharged in error.rs)
pub broadcast axiom fn ax_question_mark(e: serde_json::Error, r: Error) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, serde_json::Error>(e, r) ==> r == Error::Json(e);
}
