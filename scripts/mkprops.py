#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
R = "src/runtime/"
I = "src/import/"
M = R + "model/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Keyframe lookup clamps, brackets and holds at every frame",
 "For any animated value with non-decreasing keyframe times, evaluation gives the first keyframe's value at or before the first time, the last keyframe's value at or after the last time, and a keyframe's own value at exactly its time, and never a not-a-number weight. Strictly between two consecutive keyframes the result depends only on those two values, the easing of the earlier one and the elapsed fraction of the interval, which lies in [0,1]; a hold keyframe keeps its value until the next keyframe's time. An animated value without keyframes gives the default.",
 ["inputs"], "every non-decreasing sequence of finite keyframe times (magnitude at most 1e100), every value type, every finite frame, including frames equal to a keyframe time and duplicated times; a path's last keyframe has no end of its own",
 "No test evaluates an animated value at all; the boundary frames (exactly on the first, last or a duplicated keyframe) are a measure-zero set that sampling a few frames does not reach.",
 [M+"value.rs", M+"animated.rs"], [("interval lookup and weight", M+"value.rs Time::frames_and_weight"), ("value evaluation", M+"value.rs Animated::evaluate_inner, evaluate_or, Value::evaluate"), ("path keyframes", M+"animated.rs Spline::evaluate")])

prop("P02", "Interpolation has exact endpoints and one eased fraction for all components",
 "Interpolating two values at a fraction of at most 0 gives exactly the first value and at least 1 exactly the second. In between, every component of a number, point, vector, size or colour is a + (b - a) * y for its own pair of end values, where y is the ordinate of the cubic Bezier curve (0,0), out-handle, in-handle, (1,1) at the abscissa equal to the fraction, the same y for every component. In particular linear easing interpolates linearly and two equal values interpolate to that value.",
 ["inputs"], "all finite end values, fractions and easing handles with abscissae in [0,1], for each of the five interpolated types",
 "No test calls the interpolation; swapped or shared components, and clamping at the ends, need all types and both ends.",
 [M+"value.rs"], [("scalar easing", M+"value.rs impl Tween for f64"), ("component-wise easing", M+"value.rs impl Tween for Point, Vec2, Size, Color")])

prop("P03", "An unanimated property equals its folded fixed form at every frame",
 "A transform, star, repeater, stroke, gradient, brush or trim is treated as fixed exactly when none of its parts is animated. When it is fixed, it evaluates to the same result at every frame and folding it into its fixed form leaves every later evaluation unchanged; when any part is animated it is never folded, and evaluating it at a frame evaluates every part at that frame.",
 ["inputs", "configurations"], "every combination of fixed and animated parts of each composite property, and every frame",
 "There are 2^k fixed/animated combinations per composite and a fold that forgets one part is only visible when just that part is animated; no test evaluates any of them.",
 [M+"animated.rs", M+"mod.rs", M+"value.rs"], [("is_fixed / evaluate / into_model", M+"animated.rs Transform, Rect, Ellipse, Star, Repeater, Stroke, Gradient, Brush, Trim"), ("dispatch", M+"mod.rs Transform/Stroke/Repeater/ColorStops/Brush/Trim::evaluate")])

prop("P04", "A transform composes anchor, scale, skew, rotation and position in that order",
 "Evaluating a transform at a frame gives the affine map that first moves the anchor point to the origin, then scales by the scale in percent, then applies the skew along the skew axis, then rotates by the rotation in degrees, and finally moves to the position, each part taken at that frame. Hence the anchor point always lands exactly on the position, whether the position is given as one point or as split x and y values, and a zero skew is the identity whatever the skew axis.",
 ["inputs"], "all finite anchors, positions (joint or split), rotations, scales, skews and skew axes, fixed or animated, at every frame",
 "No test evaluates a transform; wrong order or sign only shows when several parts are non-trivial at once.",
 [M+"animated.rs"], [("matrix composition", M+"animated.rs Transform::evaluate")])

prop("P05", "Trims normalise to sub-intervals of [0,1] with the right length and start",
 "For any start, end and offset, a trim whose start and end coincide keeps nothing and one that spans 100 percent or more keeps everything; swapping start and end changes nothing. Otherwise it keeps one interval, or two when it wraps past the end of the path (the first ending at 1 and the second starting at 0), each inside [0,1] with start not after end. The kept length is |end - start| percent in total and begins at (smaller of start and end + offset/360 of the path) modulo the path length.",
 ["inputs"], "all finite start and end percentages and offsets in degrees, of either sign and beyond one turn",
 "No test touches trims; wrap-around and negative offsets form boundaries that need arguments on both sides of 0 and 100.",
 [M+"fixed.rs"], [("normalisation", M+"fixed.rs Trim::normalized")])

prop("P06", "A spline becomes a path visiting every vertex in order with its own tangents",
 "Converting a list of n vertices with in- and out-tangents appends, without touching what the path already holds, a move to the first vertex and one segment per consecutive vertex pair ending exactly at the next vertex, whose control points are the earlier vertex plus its out-tangent and the later vertex plus its in-tangent, or a straight line when both tangents are zero. A closed spline additionally returns to the first vertex with a segment of the same form and is then closed; an open one is not. An empty list appends nothing.",
 ["inputs"], "every vertex count, open or closed, every tangent, static or interpolated between two keyframes",
 "No test converts a spline; index arithmetic over the flattened triples is only wrong for particular counts.",
 [M+"spline.rs", M+"animated.rs", I+"converters.rs"], [("conversion", M+"spline.rs SplineToPath::to_path"), ("two point lists", M+"spline.rs impl for (&[Point], &[Point], f64)"), ("import layout", I+"converters.rs conv_spline")])

prop("P07", "Evaluated gradients have the declared stops with every channel in place",
 "Evaluating an animated gradient at a frame yields exactly the declared number of colour stops whenever the surrounding keyframes provide them, stop k taking its offset, red, green, blue and alpha from positions 5k to 5k+4 of both keyframes, each interpolated with the same fraction and easing. On a hold keyframe every component including the offset stays at that keyframe's value. If the data is too short for the declared number of stops the gradient has no stops at all.",
 ["inputs"], "every number of stops, every pair of keyframes with or without hold, every frame",
 "No test evaluates a gradient; off-by-one channels and a hold that misses one component need animated stops evaluated inside an interval.",
 [M+"animated.rs"], [("stop evaluation", M+"animated.rs ColorStops::evaluate_inner, evaluate")])

prop("P08", "Every render emits a balanced command stream",
 "Whatever the composition, frame and initial transform, the commands sent to the sink by one render are balanced: every pushed layer or clip is popped exactly once, nothing is popped that was not pushed by this render, and every layer-group begin has exactly one matching end properly nested with them. All drawing happens inside the outermost clip to the composition's bounds, which is pushed first and popped last.",
 ["inputs", "programs"], "all compositions (any nesting of instances, mattes, masks, missing assets and out-of-range indices) and all frames",
 "No test renders anything; the balance depends on the product of masks, mattes, visibility and content kinds at every nesting level.",
 [R+"render.rs"], [("sink protocol", R+"render.rs trait RenderSink"), ("composition", R+"render.rs Renderer::append"), ("layer", R+"render.rs Renderer::render_layer")])

prop("P09", "Layers draw exactly while active, bottom to top; matte sources only as mattes",
 "A layer contributes commands at a frame if and only if in-point <= frame < out-point on its own time line, and an inactive layer contributes none. Active layers are emitted from the last to the first of their list, each reported to the sink with its name and its position in its own layer list (the composition's or an asset's); a layer marked as matte source is emitted only inside the layers that refer to it. A layer with a matte emits, before its own content, an isolation layer, the matte source rendered with the layer's incoming transform and opacity, and then a layer with the matte's blend mode that encloses its content, and each of its masks becomes a clip under its own transform that encloses its content.",
 ["inputs", "programs"], "all layer lists, matte references (including out of range) and frames, including frames equal to in- or out-point",
 "No test renders; half-open boundaries and matte ordering require specific frames and layer arrangements.",
 [R+"render.rs"], [("visibility and order", R+"render.rs Renderer::append, render_layer")])

prop("P10", "A layer's transform is the product of its whole parent chain",
 "The transform applied to a layer is the incoming transform times the transforms of its ancestors from the outermost to the nearest parent times its own, all evaluated at the same frame, each ancestor exactly once. The chain ends at the first layer without a parent or whose parent index does not exist. On a cyclic parent chain the evaluation still terminates.",
 ["inputs", "programs"], "all parent graphs on a layer list (chains of any length, dangling indices, cycles) and all frames",
 "No test renders a layer with a parent; depth, dangling references and cycles are unbounded.",
 [R+"render.rs"], [("parent chain", R+"render.rs Renderer::compute_transform")])

prop("P11", "Precomposition instances map time, transform and opacity exactly",
 "An instance layer draws every non-matte layer of its asset, last to first, at the frame (frame - start frame) / stretch, under the instance's composed transform and with the instance's opacity multiplied in; visibility of the nested layers is decided on that mapped frame, and their parent and matte indices refer to the asset's own list. An instance of a missing asset draws nothing.",
 ["inputs", "programs"], "all assets and nestings, all start frames and non-zero stretches, all frames",
 "No test renders instances; the mapping is affine so one sample cannot distinguish it from wrong ones, and nesting composes it.",
 [R+"render.rs"], [("instance content", R+"render.rs Renderer::render_layer (Content::Instance)")])

prop("P12", "A fill or stroke paints exactly the geometry in its scope, with its transform",
 "Every fill or stroke paints exactly the geometry that precedes it in its own group, including geometry of groups nested before it and excluding everything declared outside its group, and each piece is painted with the composed transform of the group that declares it. Paints are emitted in reverse order of declaration. Adding further geometry, groups or paints later never changes what an earlier paint covers.",
 ["inputs", "programs"], "all shape trees: any nesting of groups, geometry and paints, at every frame",
 "No test renders shapes; scope leaks need particular interleavings of nested groups whose transforms coincide.",
 [R+"render.rs"], [("scoping", R+"render.rs Renderer::render_shapes, Batch::push_geometry, push_draw"), ("emission", R+"render.rs Batch::render")],
 [("Batch.geometries / draws / drawn_geometry", "stack of path ranges and of paints covering a range of them")])

prop("P13", "The render batch stays consistent through every operation; no render panics",
 "However geometry, paints, groups, repeaters and trims are sequenced, every recorded geometry refers to existing path elements and every recorded paint to existing geometry, so no render indexes out of range. Each geometry always refers to exactly the path elements produced for it, whatever is added, trimmed or repeated afterwards.",
 ["histories", "inputs"], "all sequences of batch operations produced by any shape tree whose fixed geometries begin with a move and whose paths and copies fit in memory",
 "The ranges index shared growing buffers and are rewritten by trims and repeaters; only particular operation sequences expose a stale range and no test renders any.",
 [R+"render.rs"], [("range bookkeeping", R+"render.rs Batch::push_geometry, push_draw, repeat, apply_trim, render, clear")],
 [("Batch", "elements buffer, geometry ranges into it, paint ranges into the geometries")])

prop("P14", "A trim modifies only the geometry of its own scope",
 "A trim replaces each geometry that precedes it in its own group (nested groups included) by the part of that geometry selected by the trim, joining no separate sub-paths, and leaves every geometry outside that group and every transform, paint and paint range unchanged. A trim that selects nothing leaves those geometries empty for good, and one that selects everything changes nothing. Geometry declared after the trim is not trimmed.",
 ["histories", "inputs"], "all shape trees containing trims, all trim parameters",
 "No test renders a trim; the rewrite rebuilds the whole shared buffer, so damage appears in geometry the trim does not own.",
 [R+"render.rs", M+"fixed.rs"], [("trim application", R+"render.rs Batch::apply_trim")])

prop("P15", "A repeater yields its copies with the right transforms, order and opacity",
 "A repeater replaces the geometry of its scope by the given number of copies of each piece, copy i being placed by the original transform times the repeater transform of index i (offset + i steps of position, rotation and scale about the anchor), and nothing outside its scope changes. Every paint in scope is emitted once per copy index with all copies of exactly the pieces it covered before, its opacity multiplied by start + i * (end - start) / copies (in fractions, start alone when there is a single copy), and omitted where that factor is not positive.",
 ["histories", "inputs"], "all shape scopes and all repeater parameters, every number of copies including 0 and 1, up to 2^40",
 "No test renders a repeater; the range arithmetic multiplies by the number of copies and is only wrong for some scopes.",
 [R+"render.rs", M+"fixed.rs"], [("copies", R+"render.rs Batch::repeat"), ("copy transform", M+"fixed.rs Repeater::transform")])

prop("P16", "A render depends only on its arguments, never on earlier renders",
 "Rendering a composition at a frame with a renderer that has already rendered anything else sends exactly the same commands as a fresh renderer. In particular rendering frames in any order, or alternating between compositions, gives the same result for each frame.",
 ["histories"], "all histories of earlier renders on the same renderer, all compositions and frames",
 "The renderer keeps scratch buffers between calls; only a history that leaves one dirty exposes a leak and no test renders twice.",
 [R+"render.rs"], [("buffer reuse", R+"render.rs Renderer::append, Batch::clear, mask_elements")],
 [("Renderer.batch, Renderer.mask_elements", "scratch buffers that must be empty between layers and renders")])

prop("P17", "Rendering terminates on every composition, also with cyclic references",
 "Rendering always terminates, even when assets instance themselves directly or through others, when matte references form a cycle, or when parents form a cycle. An asset instanced again while one of its layers is being drawn, and a matte source reached again while it is being drawn, contribute nothing, so that layers never nest deeper than the number of layers in the composition. Cutting a path for a trim always comes to an end, whatever the path's length.",
 ["inputs", "programs"], "all compositions, including those whose asset, matte and parent references are cyclic; repeaters of at most 2^40 copies and stars of at most 2^40 points",
 "Termination over all reference graphs cannot be sampled, and no test has a cyclic document.",
 [R+"render.rs"], [("recursion", R+"render.rs Renderer::render_layer"), ("parent chase", R+"render.rs Renderer::compute_transform")])

prop("P18", "Import resolves parent and matte references to the intended layers",
 "Importing a layer list keeps every layer, in order. A layer's parent becomes the position of the last layer that carries the referenced index, or none if there is none; a layer with a matte mode and an explicit matte reference is tied to the layer carrying that index, and without an explicit reference to the nearest preceding matte source not already consumed by a layer in between, in either case with the blend mode of its matte mode, and to nothing if there is no such layer. References never resolve to a position outside the list.",
 ["inputs"], "all layer lists with any indices (missing, duplicated, out of order), parents, matte modes, matte sources and explicit matte references",
 "The existing import tests convert one isolated layer; reference resolution needs lists, forward references and duplicates.",
 [I+"converters.rs"], [("list conversion", I+"converters.rs process_layers")])

prop("P19", "Import carries over each layer's timing, name, matte and visibility attributes",
 "For every kind of layer the imported layer has the source's name, active range [in-point, out-point), time stretch (1 when absent), start frame (0 when absent), parent reference, and is a matte source exactly when flagged so; alpha and luma mattes become source-in, inverted ones source-out and the normal mode a normal blend. A hidden layer keeps its transform, timing and references, so that it can still be a parent, but has no content and is never a matte source; a visible precomposition refers to its asset by the source's reference id and a visible shape layer holds the conversion of its shapes in order. A precomposition keeps its width and height as the size it is clipped to and its own start time; every mask with a convertible path becomes a mask with that path and its opacity (100 percent when absent), in order; the composition keeps the document's frame range, frame rate and size, and each precomposed asset is found under its id (the last one of an id).",
 ["inputs", "configurations"], "all layer kinds and all combinations of present and absent optional attributes",
 "Existing tests sample hidden/visible shape layers only; the code is triplicated per layer kind, so each kind can go wrong alone.",
 [I+"builders.rs", I+"converters.rs"], [("attributes", I+"builders.rs setup_precomp_layer, setup_shape_layer, setup_layer_base"), ("kinds and hiding", I+"converters.rs conv_layer, is_layer_hidden")])

prop("P20", "Import keeps every keyframe: time, value, hold flag and easing handles, in order",
 "Importing an animated number, point, vector, size, colour or path yields the source keyframes in order, each with its time, its hold flag and its converted value, and always as many times as values; a keyframe with several easing handles yields consecutive entries that agree in time, value and hold. Out-handles stay out-handles and in-handles stay in-handles with abscissa and ordinate in place. Numbers take the first component of an array handle, vectors one entry for each of the first two components that both handles have. A property that is not animated becomes a fixed value with the same components; a value with too few components counts as zeros. A path keyframe without its own path takes the previous keyframe's end, or else its start, and a path that has none at all is not imported.",
 ["inputs"], "all keyframe lists of every property type, all handle shapes (single numbers, arrays, missing)",
 "Existing tests import no keyframe; pairing of arrays and scalars has many shapes per keyframe.",
 [I+"converters.rs"], [("scalar", I+"converters.rs conv_scalar, conv_keyframe_handle"), ("vectors", I+"converters.rs conv_keyframes, conv_multi, conv_multi_color, conv_pos, conv_pos_point, conv_multi_point, conv_vec2, conv_size, conv_color"), ("paths", I+"converters.rs conv_shape_geometry")])

prop("P21", "Imported gradient stops keep offset and colour; alpha is from the alpha track",
 "Importing a gradient's flat number list gives one stop per declared colour stop present in the list, in order, with its offset and red, green, blue unchanged. Without an alpha track of at least two alpha stops every stop is opaque; with one, each stop's alpha is the smallest value that the pairs of neighbouring alpha stops give at its offset, never above 1: a pair gives its linear interpolation at the offset, clamped to its two ends (the first when both lie at the same offset), except that a stop within the pair whose offset is at most 0.1 and in the pair's first quarter takes the first end's alpha, and one whose offset is at least 0.9 and in the last quarter takes the second's.",
 ["inputs"], "all number lists and declared counts, with and without alpha tracks, truncated lists included",
 "No test imports a gradient; the list mixes two record sizes and the count decides where the second begins.",
 [I+"converters.rs"], [("stop decoding", I+"converters.rs conv_stops, conv_gradient_colors, normalize_to_range")])

prop("P22", "Importing any document that parses never panics",
 "Loading a byte string as a composition either returns an error or a composition and never panics: any document accepted by the parser is converted whatever optional fields are missing, whatever lists are empty or short, and whatever handle shapes it uses.",
 ["inputs"], "all documents accepted by the schema (whose nesting its parser limits), with any combination of missing, empty, short or oversized parts, within memory",
 "Existing tests import well-formed samples; the panicking paths are reached only by unusual but valid documents.",
 [I+"converters.rs", I+"builders.rs", R+"mod.rs"], [("conversion", I+"converters.rs conv_animation and everything it calls")])

prop("P23", "Strokes, blend modes and shape kinds import to the matching runtime kind",
 "Each line cap, line join and blend mode of the format imports to the runtime one of the same name, with the default of its paint kind when absent; the normal blend mode imports to no blend at all. Fills import without a stroke and strokes with one carrying the source's width and miter limit, and each paint's opacity and colour and each geometry's position, size, radius and point parameters come from the field of the same meaning. Groups keep the order of their converted items and the last transform declared in them; a group of which nothing is converted is dropped, shape kinds without a runtime counterpart are dropped, and so is every shape of whatever kind that is marked hidden, a hidden group with all it holds (the transform of a group stays its transform all the same). The defaults are bevel joins and butt caps for strokes and round ones for gradient strokes; a transform's absent parts are zero, its scale and opacity 100 percent. Hard mix, which the renderer does not have, imports to no blend.",
 ["inputs", "configurations"], "all shape kinds and all enumerators and optional fields",
 "A table with a swapped pair is only visible on that pair; existing tests cover none.",
 [I+"converters.rs"], [("enumerations", I+"converters.rs conv_draw, conv_blend_mode"), ("shapes", I+"converters.rs conv_shape, is_shape_hidden, conv_geometry, conv_polystar_geometry, conv_shape_transform, conv_transform")])

prop("P24", "Opacity composes multiplicatively from composition to paint",
 "The opacity with which a paint is emitted is the product of the opacity given to the render call, of the layer opacities in percent along the chain of instances that leads to it, of the opacities of the groups enclosing it and of its own, each evaluated at its own time line's frame. Neither the parents of a layer nor the layer a matte source is rendered for contribute opacity.",
 ["inputs", "programs"], "all compositions and frames, all non-negative opacities",
 "No test renders; a factor dropped or applied twice is only seen when that factor differs from 100 percent.",
 [R+"render.rs"], [("layer opacity", R+"render.rs Renderer::render_layer"), ("group opacity", R+"render.rs Renderer::render_shapes"), ("paint opacity", R+"render.rs DrawData::new, Batch::render")])

prop("P25", "Stars and polygons are closed paths with the right vertices in order",
 "A star of n points appends a single closed sub-path with 2n vertices alternating between the outer and the inner radius, a polygon one with n vertices on the outer radius, at equal angular steps around the position starting at the rotation measured from the top; nothing is appended when n rounds to zero. Zero roundness gives straight edges, and the path already present is left untouched.",
 ["inputs"], "all point counts up to 2^40, all radii, roundnesses, rotations and positions, at every frame",
 "No test evaluates a star; parity and wrap-around errors depend on the number of points.",
 [M+"animated.rs"], [("path", M+"animated.rs Star::evaluate")])

prop("P26", "Serialising a parsed document and parsing it again is lossless",
 "Any document model can be written out as JSON and read back to an equal model.",
 ["inputs"], "all document models",
 "Existing tests round-trip a few fragments only.",
 ["src/schema/"], [("serde derives and custom deserialisers", "src/schema/**")])

prop("P27", "A vello scene receives exactly the commands of the render",
 "Drawing into a vello scene records exactly what the renderer sends, in the same order: a pushed layer becomes a layer with the same blend, opacity, transform and shape, a clip a clip with the same transform and shape, both with the non-zero rule; a draw with a stroke becomes a stroke with that style and one without a stroke a non-zero fill, with the same transform, brush and shape and no brush transform; each pop becomes one pop, and layer-group notices leave the scene unchanged. Rendering to a new vello scene gives exactly the scene obtained by appending the same composition, frame, transform and opacity to an empty scene, whatever the renderer rendered before.",
 ["inputs", "programs", "histories"], "all compositions, frames, transforms and opacities, and all sequences of sink calls",
 "No test draws into a scene; a wrong rule, order or argument shows only on geometry where it matters.",
 [R+"vello.rs", R+"render.rs"], [("sink", R+"vello.rs impl RenderSink for vello::Scene"), ("entry point", R+"vello.rs Renderer::render_to_vello_scene")])

prop("P28", "An animated path follows its keyframes with their easing",
 "At or before its first keyframe, at any keyframe's time and during a hold keyframe an animated path has exactly that keyframe's own shape; after the last keyframe it keeps that one's. Strictly between two keyframes every vertex and every tangent of the earlier keyframe's shape has moved towards that keyframe's own end shape, or the next keyframe's shape if it has none, by the same fraction: the one by which a number going from 0 to 1 under the same two keyframes would have advanced, easing handles included. The path holds as many points as the shorter of the two shapes and is closed whenever the path is declared closed.",
 ["inputs"], "every non-decreasing sequence of finite keyframe times, every list of vertices and tangents per keyframe, with and without an end shape (the last keyframe has none), every easing handle and hold flag, every finite frame",
 "No test evaluates an animated path.",
 [M+"animated.rs", M+"spline.rs", M+"value.rs"], [("path keyframes", M+"animated.rs Spline::evaluate"), ("two point lists", M+"spline.rs impl for (&[Point], &[Point], f64)"), ("interval lookup", M+"value.rs Time::frames_and_weight")])

prop("P29", "A document loads alike from text, bytes and a JSON value, or fails",
 "Loading a composition from text, from bytes or from a JSON value gives the import of the parsed document, its size, frame range and rate included, and the same for all three when they hold the same document. Exactly when the document does not parse, loading gives an error, and that error is the parser's own.",
 ["inputs"], "all byte strings, texts and JSON values, well formed or not",
 "Tests load a handful of well-formed files through one loader each.",
 [R+"mod.rs", "src/schema/animation/animation.rs", "src/error.rs"], [("loaders", R+"mod.rs Composition::from_slice, from_json, from_str"), ("document loaders", "src/schema/animation/animation.rs Animation::from_slice, from_json, from_str"), ("errors", "src/error.rs From<serde_json::Error>")])

prop("P30", "Rectangles, ellipses and fixed paths keep their place, size and corners",
 "At every frame a rectangle appends the outline of the rectangle centred at its position with its width and height, corners rounded by its corner radius (at most half the shorter side); an ellipse appends the outline of the unrotated ellipse centred at its position that spans its width and height; a fixed path appends exactly its elements; paths and stars append theirs (P28, P25). Position, size and radius are those of the same frame, and what the path already holds stays as it is.",
 ["inputs"], "all positions, sizes and radii, fixed or animated, at every frame, whatever the path already holds",
 "No test evaluates a rectangle or an ellipse.",
 [M+"animated.rs", M+"mod.rs"], [("rectangle", M+"animated.rs Rect::evaluate"), ("ellipse", M+"animated.rs Ellipse::evaluate"), ("dispatch", M+"mod.rs Geometry::evaluate")])

prop("P31", "Layers, assets and path keyframes are read as the kind they declare",
 "A layer whose \"ty\" is 0, 1, 2, 3 or 4 is read as a precomposition, solid, image, null or shape layer, from the same members; with any other \"ty\", or none, reading fails. An asset with \"layers\" is read as a precomposition; else with \"t\": 3 (a data source) reading fails; else with \"w\" or \"h\" it is read as an image; else reading fails. \"t\": \"seq\", and no other text, marks an image sequence. A list of path keyframes is read, unchanged, exactly when every keyframe but the last has a start and a sole keyframe has one. Members that do not fit the kind make reading fail.",
 ["inputs"], "all JSON values",
 "Tests read one layer of two kinds and well-formed assets; none covers the others, their order or the failures.",
 ["src/schema/"], [("layers", "src/schema/layers/mod.rs AnyLayer::deserialize"), ("assets", "src/schema/assets/mod.rs AnyAsset::deserialize"), ("path keyframes", "src/schema/animated_properties/shape_property.rs deserialize_keyframes"), ("image sequences", "src/schema/assets/image.rs seq_from_str")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
