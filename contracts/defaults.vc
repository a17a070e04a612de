@file import/defaults.rs
@lazy FLOAT_VALUE_ZERO crate::verif_import::float_zero
@lazy FLOAT_VALUE_ONE_HUNDRED crate::verif_import::float_hundred
@lazy MULTIDIM_ONE_HUNDRED crate::verif_import::multi_hundred
@lazy POSITION_ZERO crate::verif_import::position_zero
@end
