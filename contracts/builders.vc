@file import/builders.rs
@wrap struct LayerSetupParams
@desugar option iter cast
@outline $x.as_ref().unwrap_or(&Vec::default())
crate::verif_import::w_or_empty(&$x)
@outline &FLOAT_VALUE_ONE_HUNDRED
super::defaults::FLOAT_VALUE_ONE_HUNDRED_get()
@outline $x.into()
BlendMode::from($x)
@fn setup_precomp_layer
@ret r
@spec
    requires old(target).masks@.len() == 0
    ensures base_is(*final(target), source.visual_layer), parent_is(*final(target), source.visual_layer), params_are(r.layer_index, r.matte_mode, r.matte_layer_index, source.visual_layer),
        final(target).start_frame == source.start_time, final(target).width == source.width && final(target).height == source.height,
        final(target).content == old(target).content, final(target).mask_layer == old(target).mask_layer
@loopbefore 0
    let ghost mut xs = Seq::<Option<runtime::model::Mask>>::empty();
    let ghost t0 = *target;
    let ghost ms = or_empty((source.visual_layer).masks_properties);
@loop 0
    invariant __s0@ == krefs(ms), __n0 == ms.len(), __k0 <= __n0, xs.len() == __k0,
        target.masks@ == crate::verif_iter::flat_all(xs), *target == (crate::runtime::model::Layer { masks: target.masks, ..t0 }),
        forall|i: int| 0 <= i < __k0 ==> mask_is(#[trigger] xs[i], ms[i]),
    decreases __n0 - __k0
@loopstart 0
    let ghost m0 = target.masks@;
@loopend 0
    proof {
        let ghost xs0 = xs;
        xs = xs.push(if target.masks@.len() > m0.len() { Some(target.masks@.last()) } else { None });
        assert(xs.drop_last() =~= xs0);
        assert(target.masks@ =~= crate::verif_iter::flat_all(xs));
    }
@loopafter 0
    proof { assert(masks_from(xs, ms)); }
@fn setup_shape_layer
@ret r
@spec
    requires old(target).masks@.len() == 0
    ensures base_is(*final(target), source.visual_layer), parent_is(*final(target), source.visual_layer), params_are(r.layer_index, r.matte_mode, r.matte_layer_index, source.visual_layer),
        final(target).start_frame == start_or_zero(source.visual_layer), final(target).width == old(target).width && final(target).height == old(target).height,
        final(target).content == old(target).content, final(target).mask_layer == old(target).mask_layer
@loopbefore 0
    let ghost mut xs = Seq::<Option<runtime::model::Mask>>::empty();
    let ghost t0 = *target;
    let ghost ms = or_empty((source.visual_layer).masks_properties);
@loop 0
    invariant __s0@ == krefs(ms), __n0 == ms.len(), __k0 <= __n0, xs.len() == __k0,
        target.masks@ == crate::verif_iter::flat_all(xs), *target == (crate::runtime::model::Layer { masks: target.masks, ..t0 }),
        forall|i: int| 0 <= i < __k0 ==> mask_is(#[trigger] xs[i], ms[i]),
    decreases __n0 - __k0
@loopstart 0
    let ghost m0 = target.masks@;
@loopend 0
    proof {
        let ghost xs0 = xs;
        xs = xs.push(if target.masks@.len() > m0.len() { Some(target.masks@.last()) } else { None });
        assert(xs.drop_last() =~= xs0);
        assert(target.masks@ =~= crate::verif_iter::flat_all(xs));
    }
@loopafter 0
    proof { assert(masks_from(xs, ms)); }
@fn setup_layer_base
@ret r
@spec
    requires old(target).masks@.len() == 0
    ensures base_is(*final(target), *source), parent_is(*final(target), *source), params_are(r.layer_index, r.matte_mode, r.matte_layer_index, *source),
        final(target).start_frame == start_or_zero(*source), final(target).width == old(target).width && final(target).height == old(target).height,
        final(target).content == old(target).content, final(target).mask_layer == old(target).mask_layer
@loopbefore 0
    let ghost mut xs = Seq::<Option<runtime::model::Mask>>::empty();
    let ghost t0 = *target;
    let ghost ms = or_empty((*source).masks_properties);
@loop 0
    invariant __s0@ == krefs(ms), __n0 == ms.len(), __k0 <= __n0, xs.len() == __k0,
        target.masks@ == crate::verif_iter::flat_all(xs), *target == (crate::runtime::model::Layer { masks: target.masks, ..t0 }),
        forall|i: int| 0 <= i < __k0 ==> mask_is(#[trigger] xs[i], ms[i]),
    decreases __n0 - __k0
@loopstart 0
    let ghost m0 = target.masks@;
@loopend 0
    proof {
        let ghost xs0 = xs;
        xs = xs.push(if target.masks@.len() > m0.len() { Some(target.masks@.last()) } else { None });
        assert(xs.drop_last() =~= xs0);
        assert(target.masks@ =~= crate::verif_iter::flat_all(xs));
    }
@loopafter 0
    proof { assert(masks_from(xs, ms)); }
@end
@append
use crate::verif_import::*;
broadcast use {crate::verif_import::group_import, crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields};
