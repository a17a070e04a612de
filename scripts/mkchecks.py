#!/usr/bin/env python3
"""writes contracts/props.json (what each check must discharge) and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VAL = "runtime/model/value.rs#"
checks, na = {}, {}

def check(pid, note, modules, fns, lemmas, replay, assumptions=(), secs=(10, 150), **kw):
    checks[pid] = dict(note=note, modules=modules, fns=fns, lemmas=lemmas, replay=replay, assumptions=list(assumptions), secs=list(secs), **kw)

IEEE = "float operators compute the IEEE-754 operation (primitive operators bridged to SMT FloatingPoint; elementary functions uninterpreted)"
check("P01", "keyframe lookup and evaluation functions verified against a functional specification for all inputs; the statement follows by lemmas over those contracts",
      ["runtime::model::value", "verif_p01"],
      [VAL + r"Time::frames_and_weight", VAL + r"Animated::.*", VAL + r"Value::.*", VAL + r"<Default for Value>::default", VAL + r"<AsRef for ValueRef>::as_ref"],
      ["verif_p01.rs#" + l for l in ["lemma_search", "p01_weight", "lemma_div_sign", "lemma_sub", "lemma_tri", "lemma_cmp_mono", "p01_lookup", "lemma_clamp", "lemma_d"]],
      "independent keyframe lookup on generated animations of every value type, and on spline and gradient keyframes",
      [IEEE, "slice::binary_search_by behaves as documented", "keyframe times and frame are finite, -0.0 excluded"])
check("P02", "each of the five tween implementations verified against a functional specification; end points proved in the trait contract",
      ["runtime::model::value"], [VAL + r"<Tween for .*>::tween"],
      [VAL + "lemma_ends"],
      "independent bisection of the easing curve on generated values",
      [IEEE, "kurbo::common::solve_cubic returns the real roots and CubicBez::eval evaluates the curve (uninterpreted in the proof; exercised by the replay)"])

ANI, FIX, SPL, MOD, VM = "runtime/model/animated.rs#", "runtime/model/fixed.rs#", "runtime/model/spline.rs#", "runtime/model/mod.rs#", "verif_model.rs#"
OPAQUE = "kurbo/peniko constructors and operations are uninterpreted functions of their arguments (same call, same result)"
CALLEES = "callee contracts of runtime/model/value.rs (discharged by P01/P02)"
check("P03", "is_fixed, evaluate and into_model of every animated kind verified against one functional specification; fixed implies frame-independence and folding is invisible, by lemmas",
      ["runtime::model", "runtime::model::animated", "verif_model"],
      [ANI + r".*::(is_fixed|into_model)", ANI + r"(Transform|Repeater|Stroke|Gradient|Brush|Trim|Star)::evaluate", MOD + r".*::(is_fixed|evaluate)", MOD + r"<Default for .*>::default"],
      [VM + "p03_" + l for l in ["value", "parts", "transform", "repeater", "stroke", "trim", "gradient", "brush", "star"]] + [VM + "lemma_star_angle", MOD + "lemma_eq_one"],
      "generated fixed and animated properties: folded form against unfolded form at several frames",
      [IEEE, OPAQUE, CALLEES, "peniko: multiplying a brush's alpha by 1.0 leaves it unchanged", "star point counts are at most 2^40"])
check("P04", "Transform::evaluate verified to be the stated composition of kurbo maps; zero skew and anchor-on-position follow by lemmas (the latter over real-valued maps)",
      ["runtime::model::animated", "verif_model"], [ANI + r"Transform::evaluate", MOD + r"Transform::evaluate"],
      [VM + l for l in ["p04_no_skew", "p04_anchor", "lemma_lin_mul"]],
      "independent matrix composition on generated transforms",
      [IEEE, OPAQUE, CALLEES, "anchor-on-position is proved over the reals; floating-point rounding is left to the replay's tolerance"])
check("P05", "Trim::normalized verified against a functional specification; range, order, swap and extreme cases follow by lemmas in SMT floating point",
      ["runtime::model::fixed", "verif_model"], [FIX + r"Trim::normalized"],
      [VM + l for l in ["p05_trim", "p05_swap", "lemma_div_unit", "lemma_sane"]],
      "independent interval computation on generated trims",
      [IEEE, "f64::rem_euclid by 100 of a finite number lies in [0,100]", "division by 100 is monotone (correct rounding)", "f64::min and f64::max return the smaller and the larger of two numbers", "kept length is pinned by the bit-exact formula; its equality with |end - start| up to rounding is left to the replay"], overlay="p05.vc")
check("P06", "SplineToPath::to_path and both implementations verified against a functional specification of the appended elements, for every list length",
      ["runtime::model::spline", "runtime::model::animated", "verif_model"], [SPL + r".*", ANI + r"Spline::evaluate"],
      [VM + l for l in ["p06_path", "p06_segment", "p06_straight", "lemma_zero_add"]],
      "independent conversion of generated vertex lists", [IEEE, CALLEES, "kurbo::Point::lerp(a,b,t) computes a + t (b - a), Point equality is component-wise"])
check("P07", "ColorStops::evaluate and its loop verified against a functional specification of every stop and channel, for every count and data length",
      ["runtime::model::animated", "verif_model"], [ANI + r"ColorStops::.*", ANI + r"Gradient::evaluate"],
      [VM + "p07_stops"], "independent stop evaluation on generated gradients", [IEEE, OPAQUE, CALLEES])
check("P25", "Star::evaluate and both its loops verified against a functional specification of the appended elements; closedness, vertex count, order and straight edges follow by lemmas",
      ["runtime::model::animated", "verif_model"], [ANI + r"Star::evaluate", MOD + r"Geometry::evaluate"],
      [VM + l for l in ["p25_star", "p25_straight", "p25_radius", "lemma_small", "lemma_self"]],
      "independent vertices on generated stars and polygons",
      [IEEE, CALLEES, "point counts are at most 2^40 (more cannot be allocated)", "sin, cos, tan are uninterpreted; the accumulated angle is compared with i * step by the replay's tolerance"])

REN, P09, P12, BAT, P08, VR = "runtime/render.rs#", "verif_p09.rs#", "verif_p12.rs#", "verif_batch.rs#", "verif_p08.rs#", "verif_render.rs#"
RL, RS, AP = REN + "Renderer::render_layer", REN + "Renderer::render_shapes", REN + "Renderer::append"
SINK = "sinks other than the default do what the trace records (the trace is the sequence of calls the renderer makes)"
RASSUME = [IEEE, OPAQUE, CALLEES, SINK, "a fixed geometry is a proper path (begins with a MoveTo)", "std containers behave as vstd specifies; derived Clone copies"]
NEVER = r"(?!x)x"
RM = ["runtime::render"]
check("P08", "append, render_layer and Batch::render verified against contracts that say only what is left open: the commands each adds are balanced, for every composition, nesting and frame",
      RM + ["verif_p08"], [AP, RL, REN + "Batch::render"], [P08 + l for l in ["lemma_grown_refl", "lemma_grown_push", "lemma_open", "lemma_close", "lemma_grown_call", "lemma_cat_opens", "lemma_layers"]],
      "bracket matching on the recorded commands of generated compositions", RASSUME, overlay="p08.vc", scope={AP: r"grown|last\(\)|trace", RL: r"grown", REN + "Batch::render": r"grown"})
check("P09", "append and render_layer verified against the exact command sequence of an abstract render machine; activity, order, names, mattes and masks follow by lemmas over the machine",
      RM + ["verif_p09"], [AP, RL, REN + "LayerPath::.*"], [P09 + l for l in ["p09_active", "p09_layer", "p09_matte", "p09_order", "p09_frame"]] + [VR + "lemma_path_push", REN + "lemma_view"],
      "reference renderer on generated layer lists", RASSUME, scope={RL: r"Begin|mattes|mask_evs|pops|PushLayer|layer_evs"})
check("P10", "compute_transform verified against the stated product for every parent graph; acyclic chains are followed to their end (pigeonhole lemma)",
      RM + ["verif_p09"], [REN + "Renderer::compute_transform", RL], [P09 + l for l in ["p10_product", "p10_complete", "lemma_chain", "lemma_above", "lemma_none", "lemma_up_none", "lemma_up_range"]],
      "reference renderer on generated parent graphs", RASSUME + ["the map of a single layer is Transform::evaluate's (P03/P04)"], scope={RL: r"transform == lt"})
check("P11", "the instance branch of render_layer verified against the machine: asset lookup, order, frame mapping, transform and opacity",
      RM + ["verif_p09"], [RL], [P09 + l for l in ["p11_instance", "lemma_inst", "p11_frame"]],
      "reference renderer on generated nestings of assets", RASSUME + ["equality with (frame - start) / stretch is over the reals; rounding is left to the replay's tolerance"], scope={RL: r"inst_evs|== fi|asset_layers|asset_on_path|transform == lt"})
check("P12", "render_shapes, push_geometry, push_draw and Batch::render verified against an abstract batch; coverage, transforms and stability of earlier paints follow by induction over shape trees",
      RM + ["verif_batch", "verif_p12"], [RS, REN + "Batch::(push_geometry|push_draw|render)"], [P12 + l for l in ["p12_covers", "p12_stable", "p12_emission", "lemma_cover_step", "lemma_cover_run", "lemma_cover_geometry", "lemma_grows_step", "lemma_grows_run"]] + [BAT + "lemma_step", BAT + "lemma_run"],
      "reference renderer on generated shape trees", RASSUME, scope={REN + "Batch::render": r"trace", RS: r"view|shapes_run|shapes_all|shape_step"})
check("P13", "every batch operation verified to keep the range bookkeeping well formed and to refine the abstract batch, so every slice access is in range; no panicking call is reachable in the renderer",
      RM + ["verif_batch"], [REN + ".*"], [BAT + l for l in ["lemma_els_ok", "lemma_path_cat", "lemma_geometry", "lemma_draw", "lemma_repeat", "lemma_trim", "lemma_step", "lemma_run", "lemma_nested", "lemma_cut", "lemma_cut_ranges", "lemma_cat", "lemma_rep_draws", "lemma_index"]],
      "generated sequences of shapes: no panic, and the reference renderer's pieces", RASSUME + ["total sizes stay within memory"],
      scope={REN + ".*": r"precondition|arithmetic|wf\(\)|bat_ok|scope_ok|elements|geometries|overflow|underflow|unreachable|division|range"})
check("P14", "apply_trim with all its loops verified against the abstract trim of the scope's pieces; frame, extremes and later geometry follow by lemmas",
      RM + ["verif_batch", "verif_p12"], [REN + "Batch::apply_trim", RS], [P12 + l for l in ["p14_frame", "p14_extreme", "p14_later", "p14_outside"]] + [BAT + l for l in ["lemma_trim", "lemma_cat", "lemma_cut", "lemma_cut_done", "lemma_cut_ranges"]],
      "reference renderer on generated shape trees with trims", RASSUME + ["kurbo's arc length and its inverse, sub-segments and path segments are uninterpreted"], scope={RS: NEVER})
check("P15", "Batch::repeat with its four loops and Repeater::transform verified against the abstract repeater; placement, coverage, opacity and order follow by lemmas",
      RM + ["runtime::model::fixed", "verif_batch", "verif_p12"], [REN + "Batch::repeat", FIX + "Repeater::transform", REN + "<Clone for (GeometryData|DrawData)>::clone", RS], [P12 + l for l in ["p15_pieces", "p15_frame", "p15_covers", "p15_alpha", "p15_rounds"]] + [BAT + l for l in ["lemma_repeat", "lemma_rep_draws", "lemma_index", "lemma_index_at", "lemma_mul_le"]],
      "reference renderer on generated shape trees with repeaters", RASSUME, scope={RS: NEVER})
check("P16", "the renderer's scratch buffers are empty after every call (invariant on new, append, render_layer); the commands are a function of the arguments, so any history equals a fresh renderer (verified client)",
      RM + ["verif_p16"], [REN + "Renderer::(new|append|render_layer)", REN + "Batch::clear", REN + "<Default for (Renderer|Batch)>::default"], ["verif_p16.rs#p16_history"],
      "generated histories on one renderer against fresh ones", RASSUME, scope={REN + "Renderer::append": r"ready|mask_elements|bat_new", REN + "Renderer::render_layer": r"ready|mask_elements|bat_new"})
check("P17", "termination measures on render_layer (layers not yet on the path), the parent chase and every loop, discharged for all reference graphs",
      RM + ["verif_render"], [REN + ".*"], [VR + l for l in ["lemma_idx_left_push", "lemma_names_left_push", "lemma_path_push", "dec_matte", "dec_inst", "dec_layer", "dec_content"]],
      "generated compositions with cyclic references, run to the end", RASSUME + ["kurbo's inv_arclen comes to an end for the accuracy it is given"], scope={REN + ".*": r"decreases|terminat|contains|on_path"})
check("P24", "DrawData::new, Batch::render and the opacity arguments of render_layer and render_shapes verified against the machine; the product along instances and groups follows by induction over shape trees",
      RM + ["verif_batch", "verif_p12"], [REN + "DrawData::new", REN + "Batch::render", RL, RS], [P12 + l for l in ["p24_step", "p24_run", "p24_layer"]],
      "reference renderer on generated compositions with opacities", RASSUME + ["opacities are non-negative", "peniko multiplies a brush's alpha"], scope={REN + "Batch::render": r"paint", RL: r"alpha == la|layer_evs\(c, set, set\[m", RS: NEVER, REN + "DrawData::new": r"."})

CON, BLD, DEF, VI, L18 = "import/converters.rs#", "import/builders.rs#", "import/defaults.rs#", "verif_import.rs#", "verif_p18.rs#"
IM = ["import::converters", "import::builders", "import::defaults", "verif_import", "verif_p18"]
IMB, IML, IMZ = IM + ["schema::helpers::int_boolean"], IM + ["schema::helpers::int_boolean", "runtime::model"], IM + ["schema::helpers::bezier"]
BOOL = "schema/helpers/int_boolean.rs#.*"
IASSUME = ["the document model (src/schema) derives Clone, PartialEq and Default as usual; the parser (serde) is outside the proof: the statement is about the parsed document, the replay starts from JSON text",
           "callee contracts of runtime/model/animated.rs and spline.rs (discharged by P03/P06)", "iterator adaptors, HashMap and Option behave as documented", IEEE, OPAQUE]
SETUP = BLD + "setup_.*"
check("P18", "process_layers, conv_layer and the three layer set-ups verified for every layer list; parents, mattes and the matte rule follow by lemmas over the contract of a layer list",
      IMB, [CON + "(process_layers|conv_layer|conv_animation)", SETUP, BOOL], [L18 + l for l in ["p18_last", "p18_open", "p18_parents", "p18_mattes"]],
      "documents with generated layer lists, references resolved independently from the JSON", IASSUME,
      scope={CON + "conv_layer": r"unlinked|params_are", SETUP: r"params_are|parent_is|mask_layer", CON + "conv_animation": r"layers_are|composition_is|asset"})
check("P19", "is_layer_hidden, conv_layer, the three layer set-ups, process_layers and conv_animation verified against the attributes of the source for every kind of layer",
      IML, [CON + "(is_layer_hidden|conv_layer|conv_animation|process_layers|conv_transform)", SETUP, BOOL, MOD + r"<Default for (Layer|Content)>::default"], [L18 + l for l in ["p19_layer", "p19_masks", "lemma_flat_some"]],
      "documents with generated layers, attributes read independently from the JSON", IASSUME,
      scope={CON + "conv_layer": r"layer_is|content|shapes_from|shape_is|base_is|flat_all|params_are", SETUP: r"base_is|params_are|parent_is|start_frame|width|mask|flat_all", CON + "process_layers": r"linked|layers_from"})
check("P20", "conv_scalar, conv_keyframes, conv_multi, conv_pos, their typed variants, conv_spline and the path conversion verified, loops and closures included, for every keyframe list",
      IMZ, [CON + "(conv_keyframe_handle|conv_scalar|conv_keyframes|conv_multi|conv_multi_color|conv_pos|conv_pos_point|conv_multi_point|conv_color|conv_vec2|conv_size|conv_spline|conv_shape_geometry)", "schema/helpers/bezier.rs#.*"],
      [VI + "lemma_sources"] + [L18 + l for l in ["p20_entries", "p20_value", "lemma_len_entries", "lemma_offset_prefix", "lemma_offset_mono"]],
      "documents with generated keyframe lists, entries read independently from the JSON", IASSUME)
check("P21", "conv_stops with its four loops, normalize_to_range and conv_gradient_colors verified against the per-component specification of every stop",
      IM, [CON + "(conv_stops|normalize_to_range|conv_gradient_colors)"], [VI + "lemma_flat5", VI + "lemma_flat_stops"] + [L18 + l for l in ["p21_stops", "p21_opaque", "p21_alpha", "lemma_min", "lemma_le3", "lemma_one"]],
      "generated number lists with and without alpha tracks, stops computed independently", IASSUME + ["f64::min returns the smaller of two numbers"])
check("P22", "every function of the importer verified with no reachable panic: slices, indices, arithmetic and calls all meet their preconditions for every parsed document",
      IM, [CON + ".*", BLD + ".*", DEF + ".*"], [],
      "generated well-formed and wild documents loaded from their text", IASSUME + ["the parser returns an error or a document (serde_json; exercised by the replay)", "recursion depth is that of the parsed document, which the parser limits", "no list is longer than memory allows"],
      scope={".*": r"precondition|arithmetic|overflow|underflow|unreachable|division|out of range|decreases|index"})
check("P23", "conv_draw, conv_geometry, conv_polystar_geometry, conv_shape with its loop, the transforms and conv_blend_mode verified against the field of the same meaning, and the default values against theirs",
      IM, [CON + "(conv_draw|conv_geometry|conv_polystar_geometry|conv_shape|is_shape_hidden|conv_shape_transform|conv_transform|conv_blend_mode|conv_shape_geometry)", DEF + ".*", SETUP], [L18 + l for l in ["p23_group", "p23_hidden", "p23_blend", "lemma_flat_some"]],
      "documents with generated shapes of every kind and option, read independently from the JSON", IASSUME, scope={SETUP: r"base_is|blend"})
check("P27", "the vello sink's methods and render_to_vello_scene verified against the sink protocol: each call is the scene operation that stands for the command, in order",
      ["runtime::vello"], ["runtime/vello.rs#.*"], [],
      "generated compositions and direct sink calls, scenes compared bit for bit with ones built by hand",
      ["vello::Scene's methods record what they are called with (its encoding is exercised by the replay)", "callee contract of Renderer::append (discharged by P09)", "layer-group notices leave a scene unchanged (default methods)"], feature="vello")
check("P28", "Spline::evaluate, the keyframe lookup, the easing and the point-list interpolation verified against functional specifications; the statement follows by lemmas over those contracts",
      ["runtime::model::animated", "runtime::model::spline", "runtime::model::value", "verif_p01", "verif_p28"],
      [ANI + r"Spline::evaluate", SPL + r".*", VAL + r"Time::frames_and_weight", VAL + r"<Tween for f64>::tween"],
      ["verif_p28.rs#" + l for l in ["p28_keyframes", "p28_fraction", "lemma_one", "p28_points", "p28_still", "lemma_still"]] + ["verif_p01.rs#" + l for l in ["lemma_search", "lemma_d", "lemma_clamp"]],
      "independent keyframe lookup, bisection of the easing curve and conversion on generated animated paths",
      [IEEE, CALLEES, "slice::binary_search_by behaves as documented", "kurbo::common::solve_cubic returns the real roots and CubicBez::eval evaluates the curve (uninterpreted in the proof; exercised by the replay)", "kurbo::Point::lerp(a,b,t) computes a + t (b - a)", "keyframe times and frame are finite, -0.0 excluded"])
check("P29", "the loaders verified to return the import of the parsed document, or the parser's error and nothing else, for every input",
      ["runtime", "schema::animation::animation", "error", "verif_load"], [r"runtime/mod.rs#Composition::(from_slice|from_json)", r"runtime/mod.rs#<FromStr for Composition>::from_str", r"schema/animation/animation.rs#Animation::(from_slice|from_json)", r"schema/animation/animation.rs#<FromStr for Animation>::from_str", r"error.rs#<From for Error>::from"], [],
      "generated documents, well formed, damaged and cut, through all three loaders, against the parser and the independent reading of the JSON",
      [CALLEES, "serde_json::from_slice, from_str and from_value parse the input they are given (three uninterpreted functions; that they agree on one document is exercised by the replay)", "`?` converts an error with From::from", "the import itself is conv_animation's contract (P18-P23)"])
check("P30", "Geometry::evaluate, Rect::evaluate and Ellipse::evaluate verified against functional specifications for all inputs; the statement follows by lemmas over those contracts",
      ["runtime::model", "runtime::model::animated", "verif_model"], [MOD + r"Geometry::evaluate", ANI + r"(Rect|Ellipse)::evaluate"],
      [VM + l for l in ["p30_rect", "p30_centre", "p30_ellipse", "p30_kinds"]],
      "bounding boxes, corners and axes of the paths appended for generated rectangles and ellipses",
      [IEEE, CALLEES, "kurbo's outline of a rounded rectangle and of an ellipse is uninterpreted (its box, corners and axes are measured by the replay)", "the centre is the position over the reals; rounding is left to the replay's tolerance"])
check("P31", "the hand-written deserialisers verified against the dispatch they stand for, for every value a deserializer can give; an error exactly when the value has no meaning",
      ["schema::layers", "schema::assets", "schema::assets::image", "schema::animated_properties::shape_property", "verif_parse"], [r"schema/layers/mod.rs#<Deserialize for AnyLayer>::deserialize", r"schema/assets/mod.rs#<Deserialize for AnyAsset>::deserialize", r"schema/assets/image.rs#seq_from_str", r"schema/animated_properties/shape_property.rs#deserialize_keyframes"], ["verif_parse.rs#lemma_part"],
      "generated layers, assets and keyframe lists, damaged and with foreign members, against the same reading through the kind they declare",
      [CALLEES, "what a deserializer gives, a value's members and numbers, and serde's derived reading of each kind are uninterpreted functions of their input", "the texts of errors are not specified"])
na["P26"] = "the guarantee is the agreement of serde's derived serialisers and deserialisers with each other through serde_json; the code is generated by proc-macros (trait-dispatched visitors, flattened maps buffered as dynamic values), which no contract verifier at hand accepts, and a contract assumed on serde would assume the property itself"

if __name__ == "__main__":
    from importlib import util
    props = {k: {x: y for x, y in c.items() if x != "note"} for k, c in checks.items()}
    json.dump(props, open(f"{V}/contracts/props.json", "w"), indent=1)
    ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
    m = {"version": 1, "setup_cmd": "./scripts/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks are needed: the extractor reads /repo/src and the replay crate uses the public API", "source_commits": []},
         "checks": [], "not_applicable": []}
    for i in ids:
        if i in checks:
            c = checks[i]
            m["checks"].append({"property": i, "quick_cmd": f"python3 scripts/check.py {i} --tier quick", "thorough_cmd": f"python3 scripts/check.py {i} --tier thorough",
                                "technique": "contract-based deductive verification (Verus contracts on the functions extracted from /repo/src; failed obligations replayed on the real code)",
                                "level": c.get("level", "proof"), "level_note": c["note"]})
        else:
            m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
