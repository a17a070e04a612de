@file schema/animation/animation.rs
@fn Animation::from_slice
@ret r
@outline serde_json::from_slice($v)
crate::verif_load::w_from_slice($v)
@spec
    ensures r == crate::verif_load::parsed_bytes(v@)
@fn Animation::from_json
@ret r
@outline serde_json::from_value($v)
crate::verif_load::w_from_value($v)
@spec
    ensures r == crate::verif_load::parsed_json(v)
@fn <FromStr for Animation>::from_str
@ret r
@outline serde_json::from_str($v)
crate::verif_load::w_from_str($v)
@spec
    ensures r == crate::verif_load::parsed_text(s@)
@end
