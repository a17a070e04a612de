@file error.rs
@wrap enum Error
@itemattr enum Error
#[verifier::external_derive]
@fn <From for Error>::from
@ret r
@spec
    ensures r == Error::Json(value)
@end
@append
impl vstd::std_specs::convert::FromSpecImpl<serde_json::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: serde_json::Error) -> Self { Error::Json(v) }
}
