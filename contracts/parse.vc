@file schema/layers/mod.rs
@fn <Deserialize for AnyLayer>::deserialize
@nclosures 1
@ret r
@desugar option
@outline $e.map($f).map_err($g)
(match $e { Ok(__x) => Ok($f(__x)), Err(__e) => Err($g(__e)) })
@outline $v.get($k)
crate::verif_parse::w_get(&$v, $k)
@spec
    ensures crate::verif_parse::read_as::<serde_json::Value, AnyLayer, D>(deserializer, |v| crate::verif_parse::layer_of(v), r)
@end
@file schema/assets/mod.rs
@fn <Deserialize for AnyAsset>::deserialize
@ret r
@desugar option
@outline $e.map($f).map_err($g)
(match $e { Ok(__x) => Ok($f(__x)), Err(__e) => Err(D::Error::custom(__e)) })
@outline $v.get($k)
crate::verif_parse::w_get(&$v, $k)
@spec
    ensures crate::verif_parse::read_as::<serde_json::Value, AnyAsset, D>(deserializer, |v| crate::verif_parse::asset_of(v), r)
@end
@file schema/animated_properties/shape_property.rs
@fn deserialize_keyframes
@ret r
@desugar iter
@closure 0
|keyframe: &ShapeKeyframe| -> (b: bool) ensures b == keyframe.start is Some
@spec
    ensures crate::verif_parse::read_as::<Vec<ShapeKeyframe>, Vec<ShapeKeyframe>, D>(deserializer, |v: Vec<ShapeKeyframe>| if crate::verif_parse::starts_ok(v@) { Some(v) } else { None }, r)
@end
@append
broadcast use crate::verif_parse::lemma_part;
@end
@file schema/assets/image.rs
@fn seq_from_str
@ret r
@outline $v == *"seq"
crate::verif_parse::w_str_is(&$v, "seq")
@spec
    ensures crate::verif_parse::read_as::<String, Option<bool>, D>(deserializer, |s: String| Some(if s@ == "seq"@ { Some(true) } else { None }), r)
@end
