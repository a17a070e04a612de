@file runtime/mod.rs
@wrap struct Composition
@itemattr struct Composition
#[verifier::external_derive]
@fn Composition::from_slice
@ret r
@desugar argimpl
@outline source.as_ref()
crate::verif_load::w_bytes(&source)
@spec
    ensures crate::verif_load::loaded(crate::verif_load::parsed_bytes(crate::verif_load::bytes_of(source)), r)
@fn Composition::from_json
@ret r
@spec
    ensures crate::verif_load::loaded(crate::verif_load::parsed_json(v), r)
@fn <FromStr for Composition>::from_str
@ret r
@spec
    ensures crate::verif_load::loaded(crate::verif_load::parsed_text(s@), r)
@end
@append
broadcast use crate::verif_load::ax_question_mark;
@end
