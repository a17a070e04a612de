#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]

Decides one property: extracts the functions of /repo/src under contract, lets Verus discharge every
obligation the property depends on, and replays a failed obligation on the real code (crate replay/).
Self-sufficient: builds what it needs under /verif/build.  See DESIGN.md, section "Checks".
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CONTRACTS = os.path.join(VERIF, "contracts")
TOOLCHAIN = "+1.98.1"  # the toolchain this Verus release links against
T0 = time.time()


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def must(cmd, what, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:] + r.stderr[-8000:])
        print(f"ERROR: {what} failed", flush=True)
        sys.exit(3)
    return r


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


# ------------------------------------------------------------------ builds
def build_vx():
    with Lock("vx"):
        must(["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", f"{VERIF}/tool/vx/Cargo.toml",
              "--target-dir", f"{BUILD}/vx"], "building the extractor", env=env())
    return f"{BUILD}/vx/debug/vx"


def build_deps(feature=None):
    """the dependencies of velato as the Verus toolchain needs them"""
    name = "deps" + (f"-{feature}" if feature else "")
    with Lock(name):
        must(["cargo", TOOLCHAIN, "build", "--offline", "--locked", "--quiet", "--manifest-path", f"{REPO}/Cargo.toml",
              "--no-default-features", "-p", "velato", "--lib", "--target-dir", f"{BUILD}/{name}"] + (["--features", feature] if feature else []), "building the dependencies", env=env())
    d = f"{BUILD}/{name}/debug/deps"
    ext = ["--cfg", f'feature="{feature}"'] if feature else []
    for n in ["kurbo", "peniko", "serde", "serde_json", "serde_repr", "arrayvec", "smallvec"] + ([feature] if feature else []):
        c = sorted(f for f in os.listdir(d) if re.fullmatch(rf"lib{n}-[0-9a-f]+\.(rlib|so)", f))
        if not c:
            print(f"ERROR: no build product of {n}")
            sys.exit(3)
        ext += ["--extern", f"{n}={d}/{c[0]}"]
    return ["-L", f"dependency={d}"] + ext


def build_replay(feature=None):
    name = "replay" + (f"-{feature}" if feature else "")
    with Lock(name):
        r = run(["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", f"{VERIF}/replay/Cargo.toml",
                 "--target-dir", f"{BUILD}/{name}"] + (["--features", feature] if feature else []), env=env())
        if r.returncode != 0:
            return None, (r.stderr or "")[-4000:]
        # a private copy: another check may rebuild from another tree
        fd, path = tempfile.mkstemp(prefix="replay-", dir=BUILD)
        os.close(fd)
        shutil.copy2(f"{BUILD}/{name}/debug/replay", path)
        os.chmod(path, 0o755)
    return path, None


# ------------------------------------------------------------------ verification
VER_MSG = ("postcondition not satisfied", "precondition not satisfied", "precondition not met", "assertion failed", "invariant not satisfied",
           "possible arithmetic", "decreases not satisfied", "possible division", "possible bit shift", "recommendation not met", "unable to prove",
           "could not prove", "not satisfied before loop", "not satisfied at end of loop", "cannot show", "bit-vector", "assert_by", "by(compute)", "failed")


class Verify:
    def __init__(self, vx, deps, pid, prop, tier):
        self.vx, self.deps, self.pid, self.prop, self.tier = vx, deps, pid, prop, tier
        self.dir = tempfile.mkdtemp(prefix=f"x-{pid}-", dir=BUILD)
        self.degraded = {}  # fn -> why
        self.flat = set()  # fns whose loops are proved in the context of the whole body (second attempt)
        self.flat_tried = None
        self.t0 = time.time()
        self.outputs = []
        self.lines = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def extract(self):
        out = os.path.join(self.dir, "src")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        cmd = [self.vx, f"{REPO}/src", CONTRACTS, out]
        for k in self.degraded:
            cmd += ["--degrade", k]
        for k in sorted(self.flat):
            cmd += ["--flat", k]
        if self.prop.get("overlay"):
            cmd += ["--overlay", os.path.join(CONTRACTS, "alt", self.prop["overlay"])]
        r = run(cmd)
        if r.returncode != 0:
            return None
        self.out = out
        self.map = json.load(open(os.path.join(out, "vxmap.json")))
        self.lines = {}
        return out

    def file_lines(self, path):
        if path not in self.lines:
            try:
                self.lines[path] = open(path).read().split("\n")
            except OSError:
                self.lines[path] = []
        return self.lines[path]

    def owner(self, span):
        """(kind, key): the function of the extracted copy a span lies in"""
        path = span["file_name"]
        if not os.path.isabs(path):
            path = os.path.join(os.getcwd(), path)
        rel = os.path.relpath(path, self.out)
        ln = span["line_start"]
        best = None
        for f in self.map["fns"]:
            if f["file"] == rel and f["start"] <= ln <= f["end"]:
                if best is None or f["start"] > best["start"]:
                    best = f
        if best:
            return ("fn", f"{rel}#{best['fn']}")
        ls = self.file_lines(path)
        for i in range(min(ln, len(ls)) - 1, -1, -1):
            m = re.search(r"\bfn\s+([A-Za-z0-9_]+)", ls[i])
            if m:
                return ("lemma", f"{rel}#{m.group(1)}")
        return ("file", rel)

    def once(self):
        cmd = ["verus", "--crate-type=lib", "--edition", "2024", f"{self.out}/lib.rs", "--crate-name", "velato", "-A", "warnings"]
        cmd += self.deps
        for m in self.prop["modules"]:
            cmd += ["--verify-module", m]
        cmd += ["--output-json", "--time-expanded", "--error-format=json", "--num-threads", "6", "--multiple-errors", "8"]
        if self.prop.get("rlimit"):
            cmd += ["--rlimit", str(self.prop["rlimit"])]
        self.cmd = cmd
        try:
            r = run(cmd, cwd=self.dir, timeout=max(20, min(self.prop.get("verus_timeout", 600), 620 - (time.time() - self.t0))))
        except subprocess.TimeoutExpired:
            return {"timeout": True, "diags": [], "json": None}
        diags = []
        for l in r.stderr.split("\n"):
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and d.get("spans"):
                    diags.append(d)
                elif d.get("level") == "error":
                    if "aborting due to" not in d["message"]:
                        diags.append(d)
        try:
            j = json.loads(r.stdout[r.stdout.index("{"):])
        except ValueError:
            j = None
        return {"timeout": False, "diags": diags, "json": j, "stderr": r.stderr, "rc": r.returncode}

    def blame(self, d):
        spans = d.get("spans") or []
        # where the obligation arises
        for s in spans:
            if (s.get("label") or "").startswith("at "):
                o = self.owner(s)
                if o[0] != "file":
                    return o
        for s in spans:
            if s.get("is_primary"):
                o = self.owner(s)
                if o[0] != "file":
                    return o
        for s in spans:
            o = self.owner(s)
            if o[0] != "file":
                return o
        return ("file", os.path.relpath(spans[0]["file_name"], self.out) if spans else "?")

    def outside(self, key, d):
        """a failed obligation of a function several properties share, which is not one this property rests on"""
        for pat, rx in self.prop.get("scope", {}).items():
            if re.fullmatch(pat, key):
                parts = [d["message"]]
                for s in d.get("spans") or []:
                    parts.append(s.get("label") or "")
                    for t in s.get("text") or []:
                        parts.append(t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1])
                return re.search(rx, "\n".join(parts)) is None
        return False

    def events(self, key):
        rel, k = key.split("#", 1)
        return [e for e in self.map["log"] if e.get("file") == rel and e.get("fn") == k and e["event"] in ("shape", "hint-lost", "rename", "lost", "error", "newcall", "closure")]

    def has_loop(self, key):
        rel, k = key.split("#", 1)
        for f in self.map["fns"]:
            if f["file"] == rel and f["fn"] == k and f["kind"] == "verified":
                ls = self.file_lines(os.path.join(self.out, rel))
                return any(re.search(r"\b(while|for|loop)\b", l) for l in ls[f["start"] - 1:f["end"]])
        return False

    def flatten(self, res, ran):
        """Second attempt at functions with loops whose proof failed: a loop body then knows
        all that holds before the loop, not the invariants alone (a loop invariant need not
        repeat facts about locals that a rewriting introduced). True: verify again."""
        bad = {}
        for d in res["diags"] if res else []:
            kind, key = self.blame(d)
            if kind == "fn" and (not ran or not self.outside(key, d)):
                bad[key.split("#", 1)[1]] = key
        if self.flat_tried is None:
            if not ran:
                return False
            cand = {k for k, key in bad.items() if k not in self.degraded and self.has_loop(key)}
            if not cand or time.time() - self.t0 > 300:
                return False
            self.flat_tried = cand
            self.flat = set(cand)
            return True
        if not self.flat:
            return False
        keep = self.flat - set(bad) if ran else set()
        if keep == self.flat:
            return False
        self.flat = keep
        return True

    def run(self):
        """-> dict(status, failures{key:text}, undecided{key:why}, times{}, ...)"""
        undecided = {}
        failures = {}
        others = {}
        res = None
        for _ in range(12):
            if self.extract() is None:
                return {"status": "undecided", "why": "the extractor rejected the sources", "failures": {}, "undecided": {"*": "extraction"}, "times": {}, "verified": 0}
            res = self.once()
            if res["timeout"] and self.flat:
                self.flat = set()
                continue
            if res["timeout"]:
                return {"status": "undecided", "why": "verifier time limit", "failures": {}, "undecided": {"*": "timeout"}, "times": {}, "verified": 0}
            vr = (res["json"] or {}).get("verification-results") or {}
            ran = vr.get("verified", 0) + vr.get("errors", 0) > 0 and not vr.get("encountered-vir-error")
            if ran and vr.get("errors", 0) == 0 and vr.get("success"):
                break
            if (ran or self.flat) and self.flatten(res, ran):
                undecided = {}
                continue
            todo = {}
            if not ran:
                # the extracted text is not in the verifier's language (or no longer type checks)
                for d in res["diags"]:
                    kind, key = self.blame(d)
                    if kind == "fn":
                        todo[key.split("#", 1)[1]] = f"not accepted by the verifier: {d['message'][:200]}"
                new = {k: v for k, v in todo.items() if k not in self.degraded}
                if not new:
                    # whole files
                    for d in res["diags"]:
                        for s in d.get("spans") or []:
                            rel = os.path.relpath(s["file_name"], self.out) if os.path.isabs(s["file_name"]) else s["file_name"]
                            for f in self.map["fns"]:
                                if f["file"] == rel and f["kind"] == "verified":
                                    new[f["fn"]] = f"file not accepted by the verifier: {d['message'][:200]}"
                    new = {k: v for k, v in new.items() if k not in self.degraded}
                if not new:
                    m = res["diags"][0]["message"] if res["diags"] else (res.get("stderr") or "")[-300:]
                    return {"status": "undecided", "why": f"not accepted by the verifier: {m}", "failures": {}, "undecided": {"*": m}, "times": {}, "verified": 0}
                self.degraded.update(new)
                continue
            # verification failures
            failures = {}
            others = {}
            again = {}
            for d in res["diags"]:
                kind, key = self.blame(d)
                text = d.get("rendered") or d["message"]
                if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower():
                    undecided[key] = "resource limit"
                    if kind == "fn":
                        again[key.split("#", 1)[1]] = "resource limit exceeded"
                    continue
                if kind == "fn" and self.events(key):
                    why = "; ".join(sorted({e["event"] for e in self.events(key)}))
                    again[key.split("#", 1)[1]] = f"rewritten ({why}); its proof no longer goes through as annotated"
                    continue
                if self.outside(key, d):
                    others.setdefault(key, []).append(d["message"] + ": " + "; ".join(t["text"].strip()[:120] for x in d.get("spans") or [] for t in x.get("text") or []))
                    continue
                failures.setdefault(key, []).append(text)
            new = {k: v for k, v in again.items() if k not in self.degraded}
            if new:
                self.degraded.update(new)
                failures = {}
                others = {}
                continue
            break
        j = (res or {}).get("json") or {}
        vr = j.get("verification-results") or {}
        times = {}
        for m in (j.get("times-ms", {}).get("smt", {}) or {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                k = f["function"]
                t = times.setdefault(m["module"], {"functions": 0, "ok": 0, "micros": 0})
                t["functions"] += 1
                t["ok"] += 1 if f["success"] else 0
                t["micros"] += f["time-micros"]
        return {"status": "done", "failures": failures, "undecided": undecided, "others": others, "times": times, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0)}


# ------------------------------------------------------------------ replay
def replay(pid, secs, seed, workers, binary, iters, first=0):
    tmp = tempfile.mkdtemp(prefix=f"rp-{pid}-", dir=BUILD)
    procs = []
    for w in range(workers):
        s = seed * 1000 + first + w
        prog = os.path.join(tmp, f"p{w}")
        out = open(os.path.join(tmp, f"o{w}"), "w")
        cmd = [binary, pid, "--secs", str(secs), "--seed", str(s), "--max", str(iters), "--progress", prog]
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=limits)
        procs.append((w, s, p, prog, out))
    cases, fail = 0, None
    deadline = time.time() + secs + 20
    for w, s, p, prog, out in procs:
        try:
            rc = p.wait(timeout=max(0.1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
        out.close()
        txt = open(out.name).read()
        res = None
        for l in txt.split("\n"):
            if l.startswith("{"):
                try:
                    res = json.loads(l)
                except ValueError:
                    pass
        if res is not None:
            cases += res["cases"]
            if "failure" in res and fail is None:
                fail = {"seed": s, "iter": res["iter"], "failure": res["failure"]}
        else:
            try:
                it = int(open(prog).read().strip())
            except (OSError, ValueError):
                it = 0
            cases += it
            what = "the case does not come to an end" if rc == "timeout" else f"the process died (status {rc}): stack exhausted, aborted or out of memory"
            if fail is None:
                fail = {"seed": s, "iter": it, "failure": what}
    shutil.rmtree(tmp, ignore_errors=True)
    return cases, fail


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


# ------------------------------------------------------------------ trusted base
def trusted_items():
    """everything the proofs assume: axioms, assumed specifications, bodies not verified"""
    items = []
    for fn in sorted(os.listdir(CONTRACTS)) + [os.path.join("alt", f) for f in sorted(os.listdir(os.path.join(CONTRACTS, "alt")))]:
        if not fn.endswith((".rs", ".vc")):
            continue
        t = open(os.path.join(CONTRACTS, fn)).read()
        for m in re.finditer(r"axiom fn (\w+)", t):
            items.append(f"{fn}: axiom {m.group(1)}")
        for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*((?:[^\[\]]|\[[^\[\]]*\])*?)\s*\]\s*(?:\(|->)", t):
            items.append(f"{fn}: assumed contract of {re.sub(chr(10), ' ', m.group(1))}")
        for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:proof\s+)?(?:fn|struct) (\w+)([^\n{]*)", t):
            items.append(f"{fn}: trusted wrapper or opaque type {m.group(1)}{' ' + m.group(2).strip()[:80] if m.group(1) == 'cast' else ''}")
        if fn.endswith(".vc"):
            cur = None
            for l in t.split("\n"):
                if l.startswith("@fn "):
                    cur = l[4:].strip()
                if l.startswith("@trusted"):
                    items.append(f"{fn}: contract of {cur} assumed, body not verified")
        if re.search(r"\b(assume|admit)\s*\(", t):
            items.append(f"{fn}: contains assume/admit")
    return items


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = json.load(open(os.path.join(CONTRACTS, "props.json")))
    prop = props[pid]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    thorough = tier == "thorough"
    secs = prop.get("secs", [10, 150])[1 if thorough else 0]
    workers = 6 if thorough else 3

    with ThreadPoolExecutor(3) as ex:
        f_replay = ex.submit(build_replay, prop.get("feature"))
        f_deps = ex.submit(build_deps, prop.get("feature")) if prop["modules"] else None
        f_vx = ex.submit(build_vx) if prop["modules"] else None

        def do_replay():
            binary, err = f_replay.result()
            if binary is None:
                return 0, None, err
            c, f = replay(pid, secs, seed, workers, binary, prop.get("iters", [100000, 1500000])[1 if thorough else 0])
            return c, f, None

        with ThreadPoolExecutor(1) as ex2:
            f_run = ex2.submit(do_replay)
            vres = {"status": "none", "failures": {}, "undecided": {}, "times": {}, "verified": 0}
            v = None
            if prop["modules"]:
                v = Verify(f_vx.result(), f_deps.result(), pid, prop, tier)
                log("extracting and verifying")
                try:
                    vres = v.run()
                finally:
                    v.close()
                log(f"verifier: {vres['status']} verified={vres['verified']} failures={list(vres['failures'])}" + (f" flat={sorted(v.flat)}" if v and v.flat else ""))
            cases, fail, rerr = f_run.result()
    if rerr is not None:
        sys.stderr.write(rerr)
        print("ERROR: the replay crate does not build against /repo")
        sys.exit(3)
    log(f"replay: {cases} cases, {'failure' if fail else 'no failure'}")

    # ---- obligations of this property
    def match(pats, key):
        return any(re.fullmatch(p, key) for p in pats)

    obligations, bounded, trusted_fns = [], {}, []
    degraded = v.degraded if v else {}
    if v and hasattr(v, "map"):
        for f in v.map["fns"]:
            key = f"{f['file']}#{f['fn']}"
            if not match(prop["fns"], key):
                continue
            if f["kind"] == "trusted":
                trusted_fns.append(key)
                continue
            obligations.append(key)
            if f["kind"] == "degraded":
                bounded[key] = degraded.get(f["fn"], "")
        for e in v.map["log"]:
            if e["event"] == "lost" and "fn" in e and match(prop["fns"], f"{e['file']}#{e['fn']}"):
                bounded[f"{e['file']}#{e['fn']}"] = "function not found in the current tree"
                obligations.append(f"{e['file']}#{e['fn']}")
    lemmas = prop["lemmas"]
    obligations += lemmas
    failed = {k: t for k, t in vres["failures"].items() if match(prop["fns"], k) or k in lemmas}
    foreign = [k for k in vres["failures"] if k not in failed]
    if vres["status"] == "undecided":
        for k in obligations:
            bounded.setdefault(k, vres.get("why", "undecided"))
    for k, w in vres["undecided"].items():
        if k in obligations:
            bounded.setdefault(k, w)
    for k, w in vres.get("others", {}).items():
        if k in obligations and k not in failed:
            bounded.setdefault(k, "an obligation that belongs to another property fails in it: " + " | ".join(w)[:600])
    more = 0
    if (failed or bounded) and not fail:
        # not everything is proved on this tree: look longer for a failing input
        log(f"looking further for a failing input ({len(failed)} failed, {len(bounded)} bounded)")
        more = 60 if not thorough else secs
        c2, fail = replay(pid, more, seed, 6, f_replay.result()[0], 1500000, first=100)
        cases += c2
        log(f"further replay: {c2} cases, {'failure' if fail else 'no failure'}")
    os.unlink(f_replay.result()[0])
    discharged = [k for k in obligations if k not in failed and k not in bounded]
    for k, w in bounded.items():
        print(f"BOUNDED: {k}: {w}")
    for k in foreign:
        print(f"note: {k} fails, which is an obligation of another property")

    # ---- verdict
    violations = []
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)

    def write_replay(name, data):
        p = os.path.join(rdir, f"{pid}-{name}.json")
        json.dump(data, open(p, "w"), indent=1)
        return p

    known = [k for k in known_findings() if k.get("status") == "known" and k["property"] == pid]
    seen = set()
    if fail:
        hit = next((k for k in known if re.search(k["signature"], fail["failure"])), None)
        if hit:
            seen.add(hit["what"])
        else:
            p = write_replay("input", {
                "property": pid, "kind": "failing input on the real code", "seed": fail["seed"], "iter": fail["iter"],
                "failure": fail["failure"], "failed_obligations": sorted(failed), "verifier_output": {k: t for k, t in failed.items()},
                "rerun": f"cd {VERIF}/replay && cargo run --offline --quiet -- {pid} --seed {fail['seed']} --iter {fail['iter']}"})
            violations.append(f"VIOLATION property={pid} replay={p}")
            print(f"failing input: {fail['failure'][:1500]}")
    if failed and not violations:
        p = write_replay("obligation", {"property": pid, "kind": "failed obligation", "failed_obligations": sorted(failed), "verifier_output": {k: t for k, t in failed.items()}})
        violations.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    for k, t in failed.items():
        print(f"failed obligation: {k}")
        print("\n".join(t)[:3000])
    for w in [k for k in known if k["what"] in seen]:
        print(f"KNOWN-FINDING: property={pid} {w['what']}")

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof" if prop["modules"] else "other",
        "coverage": {
            "obligations": len(obligations), "discharged": len(discharged),
            "checker_cmd": " ".join(["verus"] + [a for m in prop["modules"] for a in ("--verify-module", m)]) + " (on the extracted copy of /repo/src)",
            "trusted_base": trusted_items(),
            "functions_under_contract": [k for k in obligations if k not in lemmas],
            "lemmas": lemmas, "failed": sorted(failed),
            "bounded_not_proved": bounded, "assumed_contracts_of_repo_functions": trusted_fns,
            "back_end": "Verus 0.2026.09.13 with its bundled Z3",
            "solver": {m: {"functions": t["functions"], "ok": t["ok"], "seconds": t["micros"] / 1e6} for m, t in vres["times"].items()},
            "solver_seconds": sum(t["micros"] for t in vres["times"].values()) / 1e6,
            "desugared": [e for e in (v.map["log"] if v and hasattr(v, "map") else []) if e["event"] in ("desugar", "derive") and match(prop["fns"], f"{e['file']}#{e.get('fn')}")],
            "bounded_replay": {"cases": cases, "seconds": secs, "workers": workers, "further_seconds": more, "oracle": prop.get("replay", ""), "note": "bounded; not counted as proved"},
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    if not prop["modules"]:
        evidence["coverage"]["explanation"] = prop.get("explanation", "bounded replay only")
    json.dump(evidence, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)
    if not violations and vres["status"] == "undecided":
        print(f"UNDECIDED by proof: {vres.get('why')}; the bounded check found no failing input")
    for l in violations:
        print(l)
    print(f"{pid}: {len(discharged)}/{len(obligations)} obligations discharged, {cases} replayed cases, {len(violations)} violations")
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
