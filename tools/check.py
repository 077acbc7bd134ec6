"""Runs one property's simulation campaign: build from /repo, search, minimise, confirm, report, write evidence.

usage: check.py build | check.py run PROP quick|thorough | check.py replay FILE"""
import fcntl
import glob
import hashlib
import json
import os
import resource
import shutil
import struct
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")  # another tree only when experimenting
BUILD = f"{V}/build"
TARGET = f"{BUILD}/target"
BIN = f"{TARGET}/debug/simcheck"  # the default build


def binary(variant):
    """A variant is a list of cargo features; after "blocks:", with basic-block instrumentation."""
    return f"{BUILD}/bin/simcheck-{variant.replace(',', '-').replace(':', '-')}" if variant else BIN


def variant_of(prop, worker):
    v = CATALOGUE[prop].get("variants")
    return v[worker % len(v)] if v else ""
REPLAYS = f"{V}/replays"
WORKERS = 8
sys.path.insert(0, f"{V}/tools")
from catalogue import CATALOGUE, COMPONENTS, ASSUMPTIONS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------------ build
def env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/lib/env.sh; env -0"], capture_output=True, check=True).stdout
    e = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("CARGO_PROFILE_DEV_DEBUG", None)
    e.pop("RUSTFLAGS", None)
    return e


def digest(roots):
    h = hashlib.sha256()
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(r) for f in fs if "/target/" not in d + "/")
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(variants=("",)):
    """The simulator, compiled against /repo's current working tree. Content decides, not modification times."""
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        subprocess.run([sys.executable, f"{V}/tools/mkpkg.py", f"{BUILD}/pkg", REPO], check=True)
        stamp = f"{BUILD}/stamp.json"
        repo = digest([f"{REPO}/src", f"{REPO}/factrs-proc", f"{REPO}/Cargo.toml"])
        own = digest([f"{V}/sim/src", f"{V}/sim/Cargo.toml", f"{V}/sim/Cargo.lock", f"{V}/shims"])
        old = {}
        try:
            with open(stamp) as f:
                old = json.load(f)
        except (OSError, ValueError):
            pass
        have = set(old.get("variants", [])) if old.get("repo") == repo and old.get("own") == own else set()
        todo = [v for v in variants if v not in have or not os.path.exists(binary(v))]
        if not todo:
            return repo
        if os.path.exists(stamp):
            os.unlink(stamp)
        e = env()
        if old.get("repo") != repo and os.path.isdir(TARGET):
            for t in (TARGET, f"{BUILD}/target-blocks"):
                subprocess.run(["cargo", "clean", "--offline", "-p", "factrs", "-p", "factrs-proc"], cwd=f"{V}/sim",
                               env=dict(e, CARGO_TARGET_DIR=t), capture_output=True)
        if old.get("own") != own and os.path.isdir(TARGET):
            os.utime(f"{V}/sim/src/main.rs")
        for v in todo:
            how = ["cargo", "build", "--offline", "--locked", "--quiet"]
            blocks, features = v.startswith("blocks:"), v.removeprefix("blocks:")
            out, ve = BIN, e
            if blocks:
                out = f"{BUILD}/target-blocks/debug/simcheck"
                ve = dict(e, CARGO_TARGET_DIR=f"{BUILD}/target-blocks", RUSTC_WRAPPER=f"{V}/tools/rustc-blocks.sh")
            how += ["--features", features] if features else []
            r = subprocess.run(how, cwd=f"{V}/sim", env=ve, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                log(r.stdout[-6000:])
                log(f"BUILD-FAILED: the simulator does not compile against /repo {v}")
                sys.exit(3)
            if v:
                os.makedirs(f"{BUILD}/bin", exist_ok=True)
                if os.path.exists(binary(v)):
                    os.unlink(binary(v))
                shutil.copy(out, binary(v))
                os.unlink(out)  # the default build is not this one
            have.add(v)
        if "" in have and not os.path.exists(BIN):
            have.discard("")
        with open(stamp, "w") as f:
            json.dump({"repo": repo, "own": own, "variants": sorted(have)}, f)
        return repo


# ------------------------------------------------------------------------------------------------------ findings
def known_findings(prop):
    """Open findings of this property: (class, substring of the message, description)."""
    out = []
    path = f"{V}/known-findings.txt"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                head, _, what = line.partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split()[2:] if "=" in x)
                out.append((f["class"], f.get("match", "").replace("_", " "), what))
    return out


# ------------------------------------------------------------------------------------------------------ running
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sim(args, timeout, variant=""):
    """Runs one simulator process; None on a hang, else its return code."""
    try:
        return subprocess.run([binary(variant)] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                              timeout=timeout, preexec_fn=limits).returncode
    except subprocess.TimeoutExpired:
        return None


def run_tape(prop, tape, d, variant=""):
    t, o = f"{d}/one.tape", f"{d}/one.json"
    with open(t, "w") as f:
        f.write(" ".join(map(str, tape)))
    if os.path.exists(o):
        os.unlink(o)
    rc = sim(["one", prop, t, o], 120, variant)
    if rc is None:
        return {"viol": {"class": "hang", "msg": "the run did not end"}, "ehash": "", "events": [], "faults": {}}
    if rc != 0 or not os.path.exists(o):
        return {"viol": {"class": "crash", "msg": f"the process died ({rc})"}, "ehash": "", "events": [], "faults": {}}
    return json.load(open(o))


def run_seeds(prop, base, idx, d, variant="", timeout=600):
    """Runs indices in order in one new process: the last one's verdict."""
    o = f"{d}/seeds.json"
    if os.path.exists(o):
        os.unlink(o)
    rc = sim(["seeds", prop, base, o] + idx, timeout, variant)
    if rc is None:
        return [{"index": idx[-1], "ehash": "", "viol": {"class": "hang", "msg": "the run did not end"}}]
    if rc != 0 or not os.path.exists(o):
        return [{"index": idx[-1], "ehash": "", "viol": {"class": "crash", "msg": f"the process died ({rc})"}}]
    return [json.loads(x) for x in open(o) if x.strip()]


def campaign(prop, base, count, secs, d, known):
    procs = []
    for w in range(WORKERS):
        args = [binary(variant_of(prop, w)), "worker", prop, base, w, WORKERS, count, secs, d, w] + [f"{c}|{m}" for c, m, _ in known]
        procs.append(subprocess.Popen([str(a) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                      preexec_fn=limits))
    seen = {w: (None, time.time()) for w in range(WORKERS)}
    live = set(range(WORKERS))
    hard = []
    while live:
        time.sleep(0.1)
        for w in list(live):
            rc = procs[w].poll()
            if rc is not None:
                live.discard(w)
                if rc != 0:
                    hard.append((progress(d, w), "crash", f"the process died ({rc})", w))
                continue
            p = progress(d, w)
            if p != seen[w][0]:
                seen[w] = (p, time.time())
            elif time.time() - seen[w][1] > 60:
                procs[w].kill()
                procs[w].wait()
                live.discard(w)
                hard.append((p, "hang", "a simulated run did not end within 60 s", w))
        if hard or any(found(d, w) for w in range(WORKERS) if w not in live):
            for w in live:
                procs[w].kill()
                procs[w].wait()
            break
    return hard


def progress(d, w):
    try:
        with open(f"{d}/progress.{w}", "rb") as f:
            b = f.read(8)
        return struct.unpack("<Q", b)[0] if len(b) == 8 else None
    except OSError:
        return None


def result(d, w):
    try:
        return json.load(open(f"{d}/result.{w}"))
    except (OSError, ValueError):
        return None


def found(d, w):
    r = result(d, w)
    return bool(r and r["found"])


def hashes(d):
    out = {}
    for p in glob.glob(f"{d}/hashes.*"):
        b = open(p, "rb").read()
        for i in range(0, len(b) - 16, 17):
            idx, h = struct.unpack_from("<QQ", b, i)
            out[idx] = (h, b[i + 16])
    return out


def minimise(prop, base, f, worker, d):
    """A confirmed replay description of a violation found at some index, as small as the time allows."""
    cls = f["viol"]["class"]
    tape = f.get("tape")
    variant = variant_of(prop, worker)
    if tape is not None:
        t, o = f"{d}/full.tape", f"{d}/small"
        with open(t, "w") as fh:
            fh.write(" ".join(map(str, tape)))
        best = None
        if sim(["shrink", prop, t, cls, 20, o], 90, variant) == 0 and os.path.exists(o):
            lines = open(o).read().split("\n")
            best = [int(x) for x in lines[1].split()] if len(lines) > 1 and lines[1] else []
        for cand in ([best] if best is not None else []) + [tape]:
            a = run_tape(prop, cand, d, variant)
            b = run_tape(prop, cand, d, variant)
            if a["viol"] and a["viol"]["class"] == cls and a["ehash"] == b["ehash"] and b["viol"] == a["viol"]:
                return {"kind": "tape", "property": prop, "features": variant, "class": cls, "message": a["viol"]["msg"], "tape": cand,
                        "original_tape_length": len(tape), "seed": base, "index": f["index"], "ehash": a["ehash"],
                        "trace": a["events"], "faults": a["faults"]}
    # Not reproducible from its own choices alone: something outlived earlier runs of the same process.
    idx = list(range(worker, f["index"] + 1, WORKERS)) if f["index"] is not None else []
    n = 1
    while n <= len(idx):
        tail = idx[-n:]
        r = run_seeds(prop, base, tail, d, variant)[-1]
        if r["viol"] and r["viol"]["class"] == cls:
            return {"kind": "batch", "property": prop, "features": variant, "class": cls, "message": r["viol"]["msg"], "seed": base,
                    "indices": tail, "trace": [], "faults": {}}
        if n == len(idx):
            break
        n = min(n * 4, len(idx))
    return {"kind": "batch", "property": prop, "features": variant, "class": cls, "message": f["viol"]["msg"], "seed": base,
            "indices": idx, "trace": [], "faults": {}, "note": "seen once; not reproduced on confirmation"}


def replay(path):
    r = json.load(open(path))
    d = f"{BUILD}/replay.{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    os.environ["SIM_SCRATCH"] = d
    try:
        if r["kind"] == "tape":
            got = run_tape(r["property"], r["tape"], d, r.get("features", ""))
        else:
            got = run_seeds(r["property"], r["seed"], r["indices"], d, r.get("features", ""))[-1]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for e in got.get("events", []):
        print("  " + e)
    v = got["viol"]
    if v and v["class"] == r["class"]:
        same = "" if r["kind"] != "tape" else (" (identical trace)" if got["ehash"] == r["ehash"] else " (trace differs)")
        print(f"reproduced {r['property']} {v['class']}: {v['msg']}{same}")
        return 1
    print(f"not reproduced: {v}")
    return 0


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cat = CATALOGUE[prop]
    variants = list(dict.fromkeys(cat.get("variants", [""])))
    repo_hash = build(variants)
    built = time.time() - t0
    base = seed if tier == "quick" else seed + 1_000_003
    count, secs = (cat["quick"], 40) if tier == "quick" else (10**12, cat.get("thorough_secs", 600))
    d = f"{BUILD}/run.{prop}.{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    os.environ["SIM_SCRATCH"] = d
    known = known_findings(prop)
    try:
        t1 = time.time()
        hard = campaign(prop, base, count, secs, d, known)
        wall = time.time() - t1
        res = {w: result(d, w) for w in range(WORKERS)}
        viols = []
        for w, r in res.items():
            if r and r["found"]:
                viols.append((r["found"], w))
        for i, cls, msg, w in hard:
            viols.append(({"index": i, "viol": {"class": cls, "msg": msg}, "tape": None}, w))
        rep = None
        if viols:
            viols.sort(key=lambda x: (x[0].get("tape") is None, len(x[0].get("tape") or [])))
            rep = minimise(prop, base, viols[0][0], viols[0][1], d)
            rep["command"] = "bash /verif/run.sh replay <this file>"
            rep["repo_tree"] = repo_hash
            os.makedirs(REPLAYS, exist_ok=True)
            path = f"{REPLAYS}/{prop}-{rep['class']}.json"
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
        # one seed is one execution: run a sample again, in another process and in another order
        h = hashes(d)
        determinism = {"sampled": 0, "mismatches": 0}
        if not viols and h:
            keys = sorted(h)
            sample = [keys[(k * len(keys)) // 24] for k in range(min(24, len(keys)))][::-1]
            again = []
            for v in variants:
                part = [k for k in sample if variant_of(prop, k % WORKERS) == v]
                again += run_seeds(prop, base, part, d, v) if part else []
            determinism["sampled"] = len(again)
            determinism["mismatches"] = sum(1 for a in again if a["ehash"] != f"{h[a['index']][0]:016x}")
            if determinism["mismatches"]:
                log(f"warning: {determinism['mismatches']} sampled runs were not repeatable")
        tot = {"runs": 0, "nontrivial": 0, "events": 0, "ticks": 0, "draws": 0}
        faults, probes, margins, samples, kn = {}, {}, {}, [], {}
        for r in res.values():
            if not r:
                continue
            for k in tot:
                tot[k] += r[k]
            for k, v in r["faults"].items():
                faults[k] = faults.get(k, 0) + v
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
            for k, v in r["maxima"].items():
                margins[k] = max(margins.get(k, 0.0), float(v))
            for k, v in r["known"].items():
                kn[k] = kn.get(k, 0) + v
            samples += r["samples"]
        distinct = len({x for x, nt in h.values() if nt})
        allh = len({x for x, _ in h.values()})
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": tot["runs"],
                "distinct_nontrivial": distinct,
                "rule": cat["rule"],
                "samples": samples[:4],
                "runs_per_hour": int(tot["runs"] / wall * 3600) if wall > 0 else 0,
                "seeds_per_hour": int(tot["runs"] / wall * 3600) if wall > 0 else 0,
                "simulated_time": {"unit": "scheduler ticks (user callbacks and linear solves)",
                                   "ticks": tot["ticks"], "note": "the code under test has no clock"},
                "choices_drawn": tot["draws"],
                "trace_events": tot["events"],
                "distinct_traces": allh,
                "distinctness_measure": "64-bit hash of the complete event trace (schedule, faults, outcomes)",
                "faults_injected": faults,
                "checks_made": probes,
                "worst_deviation_over_tolerance": margins,
                "repeatability": determinism,
                "known_findings_seen": kn,
                "components": dict(COMPONENTS, **cat.get("components", {})),
                "build_s": round(built, 1),
                "search_s": round(wall, 1),
                "workers": WORKERS,
            },
            "assumptions": ASSUMPTIONS + cat.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if viols else 0,
        }
        os.makedirs(f"{V}/evidence", exist_ok=True)
        tmp = f"{V}/evidence/.{prop}.tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, f"{V}/evidence/{prop}.json")
        for c, m, what in known:
            print(f"KNOWN-FINDING: property={prop} {what} (seen {kn.get(f'{c}|{m}', 0)} times in this run)")
        if rep:
            log(f"{prop} {rep['class']}: {rep['message']}")
            for e in rep["trace"][:40]:
                log("  " + e)
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        missing = [p for p in cat.get("must_reach", []) if not probes.get(p) and not faults.get(p)]
        if missing:
            log(f"warning: never reached: {missing}")
        print(f"ok {prop} {tier}: {tot['runs']} runs, {distinct} distinct, {sum(faults.values())} faults, "
              f"{wall:.0f} s search, {built:.0f} s build")
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "build":
        build(sorted({v for c in CATALOGUE.values() for v in c.get("variants", [""])}, reverse=True))
    elif a[0] == "replay":
        build([json.load(open(a[1])).get("features", "")])
        sys.exit(replay(a[1]))
    else:
        sys.exit(run(a[1], a[2]))
