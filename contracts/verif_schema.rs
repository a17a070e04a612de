//! The document model (src/schema/) as the verifier sees it: transparent views of the repository's own
//! types (their fields are the real ones; a renamed or retyped field is a compile error here).
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::schema::animated_properties as ap;
use crate::schema::{constants as k, helpers as h, layers as l, shapes as s, animation as an, assets as a};
verus! {
#[verifier::external_type_specification]
pub struct ExBoolInt(h::int_boolean::BoolInt);
#[verifier::external_type_specification]
pub struct ExKeyframeComponent(ap::keyframe_bezier_handle::KeyframeComponent);
#[verifier::external_type_specification]
pub struct ExKeyframeBezierHandle(ap::keyframe_bezier_handle::KeyframeBezierHandle);
#[verifier::external_type_specification]
pub struct ExKeyframeBase(ap::keyframe_base::KeyframeBase);
#[verifier::external_type_specification]
pub struct ExKeyframe(ap::keyframe::Keyframe);
#[verifier::external_type_specification]
#[verifier::accept_recursive_types(T)]
pub struct ExAnimatedProperty<T>(ap::animated_property::AnimatedProperty<T>);
#[verifier::external_type_specification]
#[verifier::accept_recursive_types(T)]
pub struct ExAnimatedPropertyK<T>(ap::animated_property::AnimatedPropertyK<T>);
#[verifier::external_type_specification]
pub struct ExFloatValue(ap::value::FloatValue);
#[verifier::external_type_specification]
pub struct ExMultiDimensional(ap::multi_dimensional::MultiDimensional);
#[verifier::external_type_specification]
pub struct ExColorValue(ap::color_value::ColorValue);
#[verifier::external_type_specification]
pub struct ExPositionKeyframe(ap::position_keyframe::PositionKeyframe);
#[verifier::external_type_specification]
pub struct ExPositionValueK(ap::position::PositionValueK);
#[verifier::external_type_specification]
pub struct ExPosition(ap::position::Position);
#[verifier::external_type_specification]
pub struct ExSplitVector(ap::split_vector::SplitVector);
#[verifier::external_type_specification]
pub struct ExGradientColors(ap::gradient_colors::GradientColors);
#[verifier::external_type_specification]
pub struct ExBezier(h::bezier::Bezier);
#[verifier::external_type_specification]
pub struct ExShapeKeyframe(ap::shape_keyframe::ShapeKeyframe);
#[verifier::external_type_specification]
pub struct ExShapePropertyK(ap::shape_property::ShapePropertyK);
#[verifier::external_type_specification]
pub struct ExShapeProperty(ap::shape_property::ShapeProperty);
#[verifier::external_type_specification]
pub struct ExAnyTransformP(h::transform::AnyTransformP);
#[verifier::external_type_specification]
pub struct ExAnyTransformR(h::transform::AnyTransformR);
#[verifier::external_type_specification]
pub struct ExTransform(h::transform::Transform);
#[verifier::external_type_specification]
pub struct ExVisualObject(h::visual_object::VisualObject);
#[verifier::external_type_specification]
pub struct ExMaskMode(k::mask_mode::MaskMode);
#[verifier::external_type_specification]
pub struct ExMask(h::mask::Mask);
#[verifier::external_type_specification]
pub struct ExBlendModeK(k::blend_mode::BlendMode);
#[verifier::external_type_specification]
pub struct ExMatteMode(k::matte_mode::MatteMode);
#[verifier::external_type_specification]
pub struct ExLineCap(k::line_cap::LineCap);
#[verifier::external_type_specification]
pub struct ExLineJoin(k::line_join::LineJoin);
#[verifier::external_type_specification]
pub struct ExGradientType(k::gradient_type::GradientType);
#[verifier::external_type_specification]
pub struct ExStarType(k::star_type::StarType);
#[verifier::external_type_specification]
pub struct ExLayerL(l::layer::Layer);
#[verifier::external_type_specification]
pub struct ExVisualLayer(l::visual::VisualLayer);
#[verifier::external_type_specification]
pub struct ExPrecompositionLayer(l::precomposition::PrecompositionLayer);
#[verifier::external_type_specification]
pub struct ExSolidLayer(l::solid::SolidLayer);
#[verifier::external_type_specification]
pub struct ExNullLayer(l::null::NullLayer);
#[verifier::external_type_specification]
pub struct ExImageLayer(l::image::ImageLayer);
#[verifier::external_type_specification]
pub struct ExShapeLayer(l::shape::ShapeLayer);
#[verifier::external_type_specification]
pub struct ExAnyLayer(l::AnyLayer);
}
verus! {
#[verifier::external_type_specification]
pub struct ExAnyShape(s::AnyShape);
#[verifier::external_type_specification]
pub struct ExGraphicElementShape(s::graphic_element::GraphicElementShape);
#[verifier::external_type_specification]
pub struct ExShapeBase(s::shape::Shape);
#[verifier::external_type_specification]
pub struct ExShapeDirection(k::shape_direction::ShapeDirection);
#[verifier::external_type_specification]
pub struct ExGroupShape(s::group::GroupShape);
#[verifier::external_type_specification]
pub struct ExRectangleShape(s::rectangle::RectangleShape);
#[verifier::external_type_specification]
pub struct ExEllipseShape(s::ellipse::EllipseShape);
#[verifier::external_type_specification]
pub struct ExTransformShape(s::transform::TransformShape);
#[verifier::external_type_specification]
pub struct ExStrokeShape(s::stroke::StrokeShape);
#[verifier::external_type_specification]
pub struct ExBaseStrokeShape(s::base_stroke::BaseStrokeShape);
#[verifier::external_type_specification]
pub struct ExBaseGradientShape(s::base_gradient::BaseGradientShape);
#[verifier::external_type_specification]
pub struct ExShapeStyleShape(s::shape_style::ShapeStyleShape);
#[verifier::external_type_specification]
pub struct ExFillShape(s::fill::FillShape);
#[verifier::external_type_specification]
pub struct ExFillRule(k::fill_rule::FillRule);
#[verifier::external_type_specification]
pub struct ExTrimPathShape(s::trim_path::TrimPathShape);
#[verifier::external_type_specification]
pub struct ExModifierShape(s::modifier::ModifierShape);
#[verifier::external_type_specification]
pub struct ExTrimMultipleShapes(k::trim_multiple_shapes::TrimMultipleShapes);
#[verifier::external_type_specification]
pub struct ExPathShape(s::path::PathShape);
#[verifier::external_type_specification]
pub struct ExGradientFillShape(s::gradient_fill::GradientFillShape);
#[verifier::external_type_specification]
pub struct ExGradientStrokeShape(s::gradient_stroke::GradientStrokeShape);
#[verifier::external_type_specification]
pub struct ExPolyStarShape(s::polystar::PolyStarShape);
// kinds the importer does not read
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExStrokeDashShape(s::stroke_dash::StrokeDashShape);
#[verifier::external_type_specification]
pub struct ExComposite(k::composite::Composite);
#[verifier::external_type_specification]
pub struct ExMergeMode(k::merge_mode::MergeMode);
#[verifier::external_type_specification]
pub struct ExRepeaterTransformShape(s::repeater_transform::RepeaterTransformShape);
#[verifier::external_type_specification]
pub struct ExPuckerBloatShape(s::pucker_bloat::PuckerBloatShape);
#[verifier::external_type_specification]
pub struct ExMergeShape(s::merge::MergeShape);
#[verifier::external_type_specification]
pub struct ExRepeaterShape(s::repeater::RepeaterShape);
#[verifier::external_type_specification]
pub struct ExOffsetPathShape(s::offset_path::OffsetPathShape);
#[verifier::external_type_specification]
pub struct ExTwistShape(s::twist::TwistShape);
#[verifier::external_type_specification]
pub struct ExRoundedCornersShape(s::rounded_corners::RoundedCornersShape);
// documents
#[verifier::external_type_specification]
pub struct ExAnimation(an::animation::Animation);
#[verifier::external_type_specification]
pub struct ExCompositionD(an::composition::Composition);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExMeta(an::meta::Meta);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExMarker(h::marker::Marker);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExJson(serde_json::Value);
#[verifier::external_type_specification]
pub struct ExAnyAsset(a::AnyAsset);
#[verifier::external_type_specification]
pub struct ExAsset(a::asset::Asset);
#[verifier::external_type_specification]
pub struct ExPrecomposition(a::precomposition::Precomposition);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExImageAsset(a::image::Image);
}
