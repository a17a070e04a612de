@file schema/helpers/int_boolean.rs
@derive BoolInt PartialEq
@fn <PartialEq for BoolInt>::eq
@ret r
@spec
    ensures r == (*self == *other)
@end
@append
impl vstd::std_specs::cmp::PartialEqSpecImpl<BoolInt> for BoolInt {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &BoolInt) -> bool { *self == *other }
}
