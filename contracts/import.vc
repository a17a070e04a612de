@file import/converters.rs
@desugar option iter cast
@outline match $x.get(0..=1) { Some([$a, $b]) => $e, _ => $d, }
match crate::verif_import::w_get2(&$x) { Some(($a, $b)) => $e, _ => $d }
@outline match $x.get(0..=2) { Some([$a, $b, $c]) => $e, _ => $d, }
match crate::verif_import::w_get3(&$x) { Some(($a, $b, $c)) => $e, _ => $d }
@outline &FLOAT_VALUE_ZERO
super::defaults::FLOAT_VALUE_ZERO_get()
@outline &FLOAT_VALUE_ONE_HUNDRED
super::defaults::FLOAT_VALUE_ONE_HUNDRED_get()
@outline &MULTIDIM_ONE_HUNDRED
super::defaults::MULTIDIM_ONE_HUNDRED_get()
@outline &POSITION_ZERO
super::defaults::POSITION_ZERO_get()
@outline Color::new($x)
crate::verif_spec::w_color($x)
@fn is_layer_hidden
@ret r
@spec
    ensures r == (layer_of(*source).hidden == Some(true))
@fn conv_blend_mode
@ret r
@spec
    ensures r == blend_of(*value)
@fn normalize_to_range
@ret r
@spec
    ensures r == unit_of(a, b, x)
@fn conv_keyframe_handle
@ret r
@spec
    ensures r == handle_of(*handle)
@fn conv_scalar
@ret r
@spec
    ensures scalar_is(r, *float_value)
@loop 0
    invariant __s0@ == krefs(keyframes@), __n0 == keyframes@.len(), __k0 <= __n0,
        frames@ == Seq::new(__k0 as nat, |i: int| time_of(keyframes@[i].base)),
        values@ == Seq::new(__k0 as nat, |i: int| head_or_zero(keyframes@[i].value@)),
    decreases __n0 - __k0
@loopend 0
    proof {
        assert(frames@ =~= Seq::new(__k0 as nat, |i: int| time_of(keyframes@[i].base)));
        assert(values@ =~= Seq::new(__k0 as nat, |i: int| head_or_zero(keyframes@[i].value@)));
    }
@fn conv_keyframes
@ret r
@spec
    requires forall|k: &schema::animated_properties::keyframe::Keyframe| f.requires((k,)),
    ensures r is Animated, r->Animated_0.times@ == all_entries(keyframes@),
        r->Animated_0.values@.len() == sources(keyframes@).len(),
        forall|i: int| 0 <= i < sources(keyframes@).len() ==> f.ensures((sources(keyframes@)[i],), #[trigger] r->Animated_0.values@[i])
@closure 0
|handle: &Option<KeyframeBezierHandle>| -> (o: Vec<EasingHandle>) ensures o@ =~= handles_of(*handle)
@closure 1
|__p: (&f64, &f64)| -> (o: EasingHandle) ensures o == (EasingHandle { x: *__p.0, y: *__p.1 })
@closure 2
|x: &f64| -> (o: EasingHandle) ensures o == (EasingHandle { x: *x, y: *y })
@closure 3
|y: &f64| -> (o: EasingHandle) ensures o == (EasingHandle { x: *x, y: *y })
@entry
    let ghost ks = keyframes@;
@loop 0
    invariant __s0@ == ks, __n0 == ks.len(), __k0 <= __n0,
        forall|k: &schema::animated_properties::keyframe::Keyframe| f.requires((k,)),
        forall|h: &Option<KeyframeBezierHandle>| collect_tangents.requires((h,)),
        forall|h: &Option<KeyframeBezierHandle>, o: Vec<EasingHandle>| collect_tangents.ensures((h,), o) ==> o@ == handles_of(*h),
        frames@ == all_entries(ks.take(__k0 as int)), values@.len() == sources(ks.take(__k0 as int)).len(),
        forall|i: int| 0 <= i < values@.len() ==> f.ensures((sources(ks.take(__k0 as int))[i],), #[trigger] values@[i])
    decreases __n0 - __k0
@loopstart 0
    let ghost fr0 = frames@; let ghost va0 = values@; let ghost src0 = sources(ks.take(__k0 - 1));
    proof { assert(ks.take(__k0 as int).drop_last() =~= ks.take(__k0 - 1)); assert(ks.take(__k0 as int).last() == keyframe); lemma_sources(ks.take(__k0 - 1)); }
@loop 1
    invariant __s1@.len() == __n1, __k1 <= __n1,
        forall|k: &schema::animated_properties::keyframe::Keyframe| f.requires((k,)),
        forall|i: int| 0 <= i < __n1 ==> (#[trigger] __s1@[i]) == (handles_of(keyframe.base.in_tangent)[i], handles_of(keyframe.base.out_tangent)[i]),
        __n1 == pairs_of(keyframe.base), __n1 > 0, hold == hold_of(keyframe.base),
        frames@ == fr0 + entries_of(keyframe.base).take(__k1 as int), values@.len() == va0.len() + __k1,
        forall|i: int| 0 <= i < va0.len() ==> values@[i] == va0[i],
        forall|i: int| va0.len() <= i < values@.len() ==> f.ensures((keyframe,), #[trigger] values@[i]),
    decreases __n1 - __k1
@loopend 1
    proof { assert(frames@ =~= fr0 + entries_of(keyframe.base).take(__k1 as int)); }
@loopend 0
    proof {
        let now = ks.take(__k0 as int);
        assert(frames@ =~= fr0 + entries_of(keyframe.base));
        assert(sources(now) == src0 + Seq::new(entries_of(keyframe.base).len(), |i: int| keyframe));
        assert forall|i: int| 0 <= i < values@.len() implies f.ensures((sources(now)[i],), #[trigger] values@[i]) by {
            if i < va0.len() { assert(sources(now)[i] == src0[i]); assert(values@[i] == va0[i]); } else { assert(sources(now)[i] == keyframe); }
        }
    }
@exit
    proof { assert(ks.take(ks.len() as int) =~= ks); }
@fn conv_multi
@ret r
@closure 0
|k: &schema::animated_properties::keyframe::Keyframe| -> (o: T) requires f.requires((&k.value,)) ensures f.ensures((&k.value,), o)
@exit
    proof { if let schema::animated_properties::animated_property::AnimatedPropertyK::AnimatedValue(ks) = &multidimensional.animated_property.value { assert(Seq::new(ks@.len(), |i: int| &ks@[i]) =~= krefs(ks@)); } }
@spec
    requires forall|k: &Vec<f64>| f.requires((k,)),
    ensures match multidimensional.animated_property.value {
        schema::animated_properties::animated_property::AnimatedPropertyK::Static(c) => r is Fixed && f.ensures((&c,), r->Fixed_0),
        schema::animated_properties::animated_property::AnimatedPropertyK::AnimatedValue(ks) => rel_keyed(r, krefs(ks@), f),
    }
@fn conv_multi_color
@ret r
@closure 0
|k: &schema::animated_properties::keyframe::Keyframe| -> (o: T) requires f.requires((&k.value,)) ensures f.ensures((&k.value,), o)
@exit
    proof { if let schema::animated_properties::animated_property::AnimatedPropertyK::AnimatedValue(ks) = &color.animated_property.value { assert(Seq::new(ks@.len(), |i: int| &ks@[i]) =~= krefs(ks@)); } }
@spec
    requires forall|k: &Vec<f64>| f.requires((k,)),
    ensures match color.animated_property.value {
        schema::animated_properties::animated_property::AnimatedPropertyK::Static(c) => r is Fixed && f.ensures((&c,), r->Fixed_0),
        schema::animated_properties::animated_property::AnimatedPropertyK::AnimatedValue(ks) => rel_keyed(r, krefs(ks@), f),
    }
@fn conv_pos
@ret r
@closure 0
|pk| -> (o: &schema::animated_properties::keyframe::Keyframe) ensures *o == pk.keyframe
@closure 1
|k: &schema::animated_properties::keyframe::Keyframe| -> (o: T) requires f.requires((&k.value,)) ensures f.ensures((&k.value,), o)
@beforecall conv_keyframes
    proof { if let schema::animated_properties::position::PositionValueK::Animated(ks) = &position.value { let ks = ks@; assert forall|s: Seq<&schema::animated_properties::keyframe::Keyframe>| s.len() == ks.len() && (forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == ks[i].keyframe) implies s == pos_keys(ks) by { assert(s =~= pos_keys(ks)); } } }
@spec
    requires forall|k: &Vec<f64>| f.requires((k,)),
    ensures match position.value {
        schema::animated_properties::position::PositionValueK::Static(c) => r is Fixed && f.ensures((&c,), r->Fixed_0),
        schema::animated_properties::position::PositionValueK::Animated(ks) => rel_keyed(r, pos_keys(ks@), f),
    }
@fn conv_pos_point
@ret r
@closure 0
|x: &Vec<f64>| -> (o: Point) ensures o == as_point(x@)
@exit
    proof { if let schema::animated_properties::position::PositionValueK::Animated(ks) = &value.value { assert(__ret->Animated_0.values@ =~= Seq::new(sources(pos_keys(ks@)).len(), |i: int| f_point()(sources(pos_keys(ks@))[i].value@))); } }
@spec
    ensures pos_is(r, *value, f_point())
@fn conv_multi_point
@ret r
@closure 0
|x: &Vec<f64>| -> (o: Point) ensures o == as_point(x@)
@exit
    proof { if let schema::animated_properties::animated_property::AnimatedPropertyK::AnimatedValue(ks) = &value.animated_property.value { assert(__ret->Animated_0.values@ =~= Seq::new(sources(krefs(ks@)).len(), |i: int| f_point()(sources(krefs(ks@))[i].value@))); } }
@spec
    ensures multi_is(r, value.animated_property.value, f_point())
@fn conv_color
@ret r
@closure 0
|x: &Vec<f64>| -> (o: Color) ensures o == as_color(x@)
@exit
    proof { if let schema::animated_properties::animated_property::AnimatedPropertyK::AnimatedValue(ks) = &value.animated_property.value { assert(__ret->Animated_0.values@ =~= Seq::new(sources(krefs(ks@)).len(), |i: int| f_color()(sources(krefs(ks@))[i].value@))); } }
@spec
    ensures multi_is(r, value.animated_property.value, f_color())
@fn conv_vec2
@ret r
@closure 0
|x: &Vec<f64>| -> (o: Vec2) ensures o == as_vec2(x@)
@exit
    proof { if let schema::animated_properties::animated_property::AnimatedPropertyK::AnimatedValue(ks) = &value.animated_property.value { assert(__ret->Animated_0.values@ =~= Seq::new(sources(krefs(ks@)).len(), |i: int| f_vec2()(sources(krefs(ks@))[i].value@))); } }
@spec
    ensures multi_is(r, value.animated_property.value, f_vec2())
@fn conv_size
@ret r
@closure 0
|x: &Vec<f64>| -> (o: Size) ensures o == as_size(x@)
@exit
    proof { if let schema::animated_properties::animated_property::AnimatedPropertyK::AnimatedValue(ks) = &value.animated_property.value { assert(__ret->Animated_0.values@ =~= Seq::new(sources(krefs(ks@)).len(), |i: int| f_size()(sources(krefs(ks@))[i].value@))); } }
@spec
    ensures multi_is(r, value.animated_property.value, f_size())
@fn conv_spline
@ret r
@outline ($x, $y).into()
Point::new($x, $y)
@loopstart 0
    let ghost p0 = points@;
@spec
    ensures r.0@ == spline_pts(*value), r.1 == closed_of(*value)
@loop 0
    invariant __s0@.len() == __n0, __n0 == value.vertices@.len(), __k0 <= __n0,
        forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0@[j]).0.0 == value.vertices@[j] && coord(*__s0@[j].0.1) == coord_at(value.in_tangents@, j) && coord(*__s0@[j].1) == coord_at(value.out_tangents@, j),
        points@ == spline_pts(*value).take(3 * __k0),
    decreases __n0 - __k0
@loopend 0
    proof {
        let j = __k0 - 1;
        assert(v == &value.vertices@[j] && coord(*i) == coord_at(value.in_tangents@, j) && coord(*o) == coord_at(value.out_tangents@, j));
        assert(points@ == p0.push(coord(*v)).push(coord(*i)).push(coord(*o)));
        assert((3 * j) / 3 == j && (3 * j + 1) / 3 == j && (3 * j + 2) / 3 == j);
        assert(points@ =~= spline_pts(*value).take(3 * __k0));
    }
@exit
    proof { assert(spline_pts(*value).take(3 * value.vertices@.len() as int) =~= spline_pts(*value)); }
@fn conv_stops
@ret r
@spec
    ensures stops_is(r@, value@, count as int)
@loop 0
    invariant_except_break __s0@.len() == __n0, __n0 == n_stops(value@, count as int), __k0 <= __n0, count > 0 || __n0 == 0,
        forall|j: int| 0 <= j < __n0 ==> (#[trigger] __s0@[j])@ == value@.subrange(4 * j, 4 * j + 4),
        alpha_stops@.len() == 0, stops@.len() == __k0, __k0 < count || count == 0,
        forall|j: int| 0 <= j < __k0 ==> (#[trigger] stops@[j])@ =~= value@.subrange(4 * j, 4 * j + 4).push(1.0f64),
    ensures stops_is(stops@, value@, count as int)
    decreases __n0 - __k0
@exit
    proof { assert(stops_is(__ret@, value@, count as int)); }
@loop 1
    invariant __s1@.len() == __n1, __k1 <= __n1, __n1 == alpha_track(value@, count as int).len(),
        forall|j: int| 0 <= j < __n1 ==> (#[trigger] __s1@[j])@ == value@.subrange(2 * (j + 2 * count), 2 * (j + 2 * count) + 2),
        alpha_stops@ == alpha_track(value@, count as int).take(__k1 as int),
    decreases __n1 - __k1
@loop 2
    invariant __n2 == stops@.len(), __k2 <= __n2, stops@.len() == count, count <= value@.len() as int / 4,
        alpha_stops@ == alpha_track(value@, count as int),
        forall|j: int| 0 <= j < __n2 ==> (#[trigger] stops@[j])@ =~= value@.subrange(4 * j, 4 * j + 4).push(if j < __k2 { alpha_at(alpha_stops@, value@[4 * j]) } else { 1.0f64 }),
    decreases __n2 - __k2
@loop 3
    invariant 1 <= __k2 <= count, count <= value@.len() as int / 4, __s3@ == krefs(alpha_stops@), __n3 == alpha_stops@.len(), __k3 <= __n3,
        stop@ =~= value@.subrange(4 * (__k2 - 1), 4 * (__k2 - 1) + 4).push(alpha_at(alpha_stops@.take(__k3 as int), value@[4 * (__k2 - 1)])),
        __k3 == 0 ==> last is None, __k3 > 0 ==> last == Some(alpha_stops@[__k3 - 1]),
    decreases __n3 - __k3
@loopstart 3
    let ghost st0 = stop@;
@loopend 3
    proof {
        let tr = alpha_stops@.take(__k3 as int); let x = value@[4 * (__k2 - 1)];
        assert(tr.drop_last() =~= alpha_stops@.take(__k3 - 1));
        assert(tr.last() == (b, alpha_b));
        if __k3 >= 2 {
            assert(tr[tr.len() - 2] == alpha_stops@[__k3 - 2]);
            assert(st0[0] == x);
            assert(st0[4] == alpha_at(tr.drop_last(), x));
            assert(stop@ =~= st0.update(4, alpha_at(tr, x)));
        }
    }
@loopend 2
    proof { assert(alpha_stops@.take(alpha_stops@.len() as int) =~= alpha_stops@); }
@fn conv_gradient_colors
@ret r
@outline runtime::model::fixed::Color::new($x)
crate::verif_spec::w_color($x)
@outline runtime::model::fixed::ColorStops::new()
crate::verif_spec::w_stops_default()
@outline stops.push($x.into(),)
crate::verif_spec::w_push_stop(&mut stops, crate::verif_spec::w_stop($x))
@outline stops.push($x.into())
crate::verif_spec::w_push_stop(&mut stops, crate::verif_spec::w_stop($x))
@spec
    ensures gradient_is(r, *value)
@entry
    broadcast use crate::verif_spec::group_peniko;
@loop 0
    invariant __n0 == __s0@.len(), __k0 <= __n0, stops_is(__s0@, value@, count as int), __n0 == n_stops(value@, count as int),
        stops_view(stops) == Seq::new(__k0 as nat, |j: int| stop_of(value@, count as int, j)),
    decreases __n0 - __k0
@loopend 0
    proof { assert(stops_view(stops) =~= Seq::new(__k0 as nat, |j: int| stop_of(value@, count as int, j))); }
@loop 1
    invariant __s1@ == krefs(animated@), __n1 == animated@.len(), __k1 <= __n1,
        frames@ == Seq::new(__k1 as nat, |i: int| time_of(animated@[i].base)),
        values@.len() == __k1, forall|i: int| 0 <= i < __k1 ==> (#[trigger] values@[i])@ == flat_stops(animated@[i].value@, count as int),
    decreases __n1 - __k1
@loopstart 1
    proof {
        assert forall|s: Seq<[f64; 5]>| stops_is(s, value.value@, count as int) implies #[trigger] crate::verif_iter::flat_all(s) == flat_stops(value.value@, count as int) by { lemma_flat_stops(s, value.value@, count as int); }
    }
@loopend 1
    proof { assert(frames@ =~= Seq::new(__k1 as nat, |i: int| time_of(animated@[i].base))); }
@fn conv_transform
@ret r
@spec
    ensures xf_is(r.0, *value), scalar_or(r.1, value.opacity, 100.0f64)
@beforecall into_model
    proof { assert(xf_parts(transform, *value)); }
@fn conv_shape_transform
@ret r
@spec
    ensures xf_is(r.transform, value.transform), scalar_or(r.opacity, value.transform.opacity, 100.0f64)
@beforecall into_model
    proof { assert(xf_parts(transform, value.transform)); }
@fn conv_draw
@ret r
@spec
    ensures paints(*value) ==> r is Some && draw_is(r->Some_0, *value), !paints(*value) ==> r is None
@exit
    proof {
        match value {
            schema::shapes::AnyShape::Fill(v) => { assert(solid_is(__ret->Some_0.brush, v.color)); }
            schema::shapes::AnyShape::Stroke(v) => { assert(solid_is(__ret->Some_0.brush, v.stroke_color)); assert(stroke_is(__ret->Some_0.stroke, v.base_stroke, Join::Bevel, Cap::Butt)); }
            schema::shapes::AnyShape::GradientFill(v) => { assert(gradient_brush_is(__ret->Some_0.brush, v.gradient)); }
            schema::shapes::AnyShape::GradientStroke(v) => { assert(gradient_brush_is(__ret->Some_0.brush, v.gradient)); assert(stroke_is(__ret->Some_0.stroke, v.base_stroke, Join::Round, Cap::Round)); }
            _ => {}
        }
    }
@fn conv_polystar_geometry
@ret r
@spec
    ensures r is Some, star_is(r->Some_0, *value)
@beforecall into_model
    proof { assert(star_parts(star, *value)); }
@fn conv_geometry
@ret r
@spec
    ensures geometry_is(r, *value)
@fn conv_shape_geometry
@ret r
@desugar compound
@outline points.as_slice().to_path($x);
let __p = points.as_slice(); __p.to_path($x);
@spec
    ensures path_is(r, *value)
@loop 0
    invariant __n0 == animated@.len(), __s0@.len() == __n0, __k0 <= __n0, forall|i: int| 0 <= i < __n0 ==> (#[trigger] __s0@[i]) == (i as usize, &animated@[i]),
        frames@ == Seq::new(__k0 as nat, |i: int| time_of(animated@[i].base)),
        values@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> key_values_are(#[trigger] values@[i], animated@, i),
        is_closed == any_closed(animated@, __k0 as int),
        path_keys(*value) == Some(animated@),
    decreases __n0 - __k0
@loopstart 0
    let ghost sb = start_of(animated@, __k0 - 1);
@loopend 0
    proof { assert(frames@ =~= Seq::new(__k0 as nat, |i: int| time_of(animated@[i].base))); }
@fn is_shape_hidden
@ret r
@spec
    ensures r == shape_hidden(*value)
@fn conv_shape
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures shape_is(r, *value)
    decreases value
@loopbefore 0
    let ghost mut rs = Seq::<Option<crate::runtime::model::Shape>>::empty();
    let ghost items = value.shapes@;
    proof { assert(items.take(0).len() == 0); }
@loop 0
    invariant __s0@ == krefs(items), __n0 == items.len(), __k0 <= __n0, rs.len() == __k0, items == value.shapes@,
        shapes@ == crate::verif_iter::flat_all(rs), group_transform_is(group_transform, items.take(__k0 as int)),
        forall|i: int| 0 <= i < __k0 ==> item_is(#[trigger] rs[i], items[i]),
    decreases __n0 - __k0
@loopstart 0
    let ghost sh0 = shapes@;
    proof {
        let j = __k0 - 1;
        assert(item == &items[j]); assert(decreases_to!(value.shapes => value.shapes@[j]));
        assert(items.take(__k0 as int).drop_last() =~= items.take(j)); assert(items.take(__k0 as int).last() == items[j]);
    }
@loopend 0
    proof {
        let ghost x: Option<crate::runtime::model::Shape> = if shapes@.len() > sh0.len() { Some(shapes@.last()) } else { None };
        let ghost rs0 = rs;
        rs = rs.push(x);
        assert(rs.drop_last() =~= rs0);
        assert(shapes@ =~= crate::verif_iter::flat_all(rs));
        assert(item_is(rs[__k0 - 1], items[__k0 - 1]));
    }
@loopafter 0
    proof {
        assert(items.take(items.len() as int) =~= items);
        assert(src == schema::shapes::AnyShape::Group(*value));
        assert forall|sh: Vec<crate::runtime::model::Shape>, t: Option<GroupTransform>| sh@.len() > 0 && sh@ == crate::verif_iter::flat_all(rs) && group_transform_is(t, items) implies
            #[trigger] shape_is(Some(crate::runtime::model::Shape::Group(sh, t)), src) by { assert(group_is(Some(crate::runtime::model::Shape::Group(sh, t)), rs, items)); }
        if shapes@.len() == 0 { assert(group_is(None, rs, items)); assert(shape_is(None, src)); }
    }
@entry
    let ghost src = *value;
@beforecall into_model
    proof { assert(trim_parts(trim, *value)); }
@exit
    proof { match src { schema::shapes::AnyShape::Group(g) => { assert(shape_is(__ret, src)); } _ => {} } }
@fn conv_layer
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures r is Some, layer_is(r->Some_0.0, *source), unlinked(r->Some_0.0, *source), params_are(r->Some_0.1, r->Some_0.2, r->Some_0.3, visual_of(*source))
@entry
    let ghost src = *source;
@loopbefore 0
    let ghost mut rs = Seq::<Option<crate::runtime::model::Shape>>::empty();
    let ghost items = shape_layer.shapes@;
@loop 0
    invariant __s0@ == krefs(items), __n0 == items.len(), __k0 <= __n0, rs.len() == __k0,
        shapes@ == crate::verif_iter::flat_all(rs),
        forall|i: int| 0 <= i < __k0 ==> shape_is(#[trigger] rs[i], items[i]),
    decreases __n0 - __k0
@loopstart 0
    let ghost sh0 = shapes@;
@loopend 0
    proof {
        let ghost x: Option<crate::runtime::model::Shape> = if shapes@.len() > sh0.len() { Some(shapes@.last()) } else { None };
        let ghost rs0 = rs;
        rs = rs.push(x);
        assert(rs.drop_last() =~= rs0);
        assert(shapes@ =~= crate::verif_iter::flat_all(rs));
        assert(shape_is(rs[__k0 - 1], items[__k0 - 1]));
    }
@loopafter 0
    proof { assert(shapes_from(rs, items)); }
@exit
    proof { assert(base_is(crate::runtime::model::Layer { is_mask: flagged(visual_of(src)), ..__ret->Some_0.0 }, visual_of(src))); }
@fn process_layers
@ret r
@outline let matte_targets: HashMap<usize, usize> = $x;
();
@spec
    ensures layers_are(r@, source_layers@)
@loopbefore 0
    proof { assert(ids(Seq::<crate::verif_import::Entry>::empty()) =~= Seq::empty()); }
@loop 0
    invariant __s0@ == krefs(source_layers@), __n0 == source_layers@.len(), __k0 <= __n0, converted@.len() == __k0,
        forall|i: int| 0 <= i < __k0 ==> entry_is(#[trigger] converted@[i], source_layers@[i]),
        forall|k: usize| #[trigger] lookup(idmap@, k) == last_with(converted@, k),
    decreases __n0 - __k0
@loopstart 0
    let ghost c0 = converted@; let ghost m0 = idmap@;
@loopend 0
    proof {
        assert(converted@.drop_last() =~= c0);
        assert forall|k: usize| #[trigger] lookup(idmap@, k) == last_with(converted@, k) by { assert(lookup(m0, k) == last_with(c0, k)); }
    }
@loopbefore 1
    let ghost es = converted@;
    let ghost map = idmap@;
@loop 1
    invariant __n1 == es.len(), __s1@.len() == __n1, __k1 <= __n1, forall|i: int| 0 <= i < __n1 ==> (#[trigger] __s1@[i]) == (i as usize, es[i]),
        idmap@ == map, forall|k: usize| #[trigger] lookup(map, k) == last_with(es, k),
        forall|i: int| 0 <= i < __n1 ==> (#[trigger] es[i]).0.mask_layer is None,
        layers@.len() == __k1, forall|i: int| 0 <= i < __k1 ==> #[trigger] layers@[i] == linked(es, i),
        prev_matte_layer == open_matte(es, __k1 as int),
    decreases __n1 - __k1
@loopstart 1
    let ghost e = es[__k1 - 1];
    proof {
        if let Some(p) = e.0.parent { assert(lookup(map, p) == last_with(es, p)); }
        if let Some(k) = e.3 { assert(lookup(map, k) == last_with(es, k)); }
    }
@loopafter 1
    proof { assert(layers_from(es, layers@, source_layers@)); }
@fn conv_animation
@ret r
@outline HashMap::default()
HashMap::new()
@spec
    ensures composition_is(r, source)
@loopbefore 0
    let ghost mut vs = Seq::<Option<Vec<Layer>>>::empty();
    let ghost list = assets@; let ghost tgt = target;
@loop 0
    invariant __s0@ == list, __n0 == list.len(), __k0 <= __n0, vs.len() == __k0,
        forall|i: int| 0 <= i < __k0 ==> asset_is(#[trigger] vs[i], list[i]),
        target.assets@ == asset_map(vs, list.take(__k0 as int)), target == (Composition { assets: target.assets, ..tgt }),
    decreases __n0 - __k0
@loopstart 0
    let ghost vs0 = vs; let ghost a0 = asset; let ghost tg0 = target.assets@;
    proof { assert(list.take(__k0 as int).drop_last() =~= list.take(__k0 - 1)); assert(list.take(__k0 as int).last() == asset); }
@loopend 0
    proof {
        if let schema::assets::AnyAsset::Precomposition(p) = &a0 { vs = vs0.push(Some(target.assets@[p.asset.id])); } else { vs = vs0.push(None); }
        assert(vs.drop_last() =~= vs0);
        assert(target.assets@ =~= asset_map(vs, list.take(__k0 as int)));
    }
@loopafter 0
    proof { assert(list.take(list.len() as int) =~= list); assert(assets_from(vs, list)); }
@entry
    let ghost src = source;
@exit
    proof { if src.assets is None { assert(assets_from(Seq::empty(), Seq::empty())); assert(asset_map(Seq::empty(), Seq::empty()) =~= Map::empty()); } }
@end
@append
use crate::verif_import::*;
broadcast use {crate::verif_import::group_import, crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, vstd::std_specs::hash::group_hash_axioms, crate::verif_render::ax_string_key};
/// `keyed`, with the conversion given as an executable function
pub open spec fn rel_keyed<T: Tween, F: Fn(&Vec<f64>) -> T>(v: Value<T>, ks: Seq<&schema::animated_properties::keyframe::Keyframe>, f: F) -> bool {
    v is Animated && v->Animated_0.times@ == all_entries(ks) && v->Animated_0.values@.len() == sources(ks).len()
        && forall|i: int| 0 <= i < sources(ks).len() ==> f.ensures((&sources(ks)[i].value,), #[trigger] v->Animated_0.values@[i])
}
