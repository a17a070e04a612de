#!/bin/bash
# builds the extractor, the dependencies for the verifier and the replay crate under /verif/build
cd "$(dirname "$0")/.." && exec python3 - <<'P'
import sys
sys.path.insert(0, "scripts")
import check
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(3) as ex:
    fs = [ex.submit(f) for f in (check.build_vx, check.build_deps, check.build_replay)]
    fs += [ex.submit(f, "vello") for f in (check.build_deps, check.build_replay)]
    for f in fs: f.result()
print("setup done")
P
