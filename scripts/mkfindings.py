#!/usr/bin/env python3
"""writes known_findings.json: defects found by the checks (fixed ones suppress nothing)"""
import json, os
F = [
 ("P01", "dad2124", "not-a-number weight at the last keyframe and between keyframes that share a time"),
 ("P12", "1a12082", "a group's geometry was merged into equally transformed geometry declared outside the group, so paints of the group covered it"),
 ("P14", "740dd31", "geometry removed by an empty trim came back when later geometry was merged into its range"),
 ("P07", "cb92bb6", "hold keyframes of a gradient held the colours but interpolated the stop offsets"),
 ("P03", "40140cf", "an animated gradient brush ignored the alpha it was evaluated with"),
 ("P23", "29c6ecf", "the opacity of gradient fills and strokes was not imported"),
 ("P23", "871967c", "a transform without scale was scaled to nothing (default 0 instead of 100 percent)"),
 ("P21", "63ee15a", "a gradient that declares no colour stops panicked on import"),
 ("P22", "c22ffaf", "easing handles with no or several components panicked on import"),
 ("P22", "26ebd4d", "a scalar keyframe without components panicked on import"),
 ("P22", "cfc011d", "transforms with split or missing rotation, and groups with split position, panicked on import"),
 ("P22", "ff2666e", "a path whose first keyframe has no start panicked on import"),
 ("P22", "edf6dad", "assets other than precompositions panicked on import"),
 ("P22", "2aa78ee", "the add and hard mix blend modes panicked on import"),
 ("P17", "6766112", "cyclic instance and matte references recursed until the stack was exhausted"),
 ("P14", "fdb15ad", "trimming a geometry of several sub-paths joined them by lines that are not part of the geometry"),
 ("P09", "fd97029", "layers of assets and matte sources were reported to the sink at position 0 instead of their position in the layer list"),
 ("P28", "91450b4", "easing handles of path keyframes were imported and then ignored by the evaluation"),
 ("P23", "1a30f72", "shapes marked hidden were imported and drawn"),
 ("P17", "030d016", "trimming a path of extreme length never came to an end"),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump([{"status": "fixed", "property": p, "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"} for p, c, w in F],
          open(os.path.join(here, "known_findings.json"), "w"), indent=1)
