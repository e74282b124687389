#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

Builds the symbolic executor (if needed), regenerates the IR of the harness crates from /repo's sources,
executes the property's harnesses symbolically, replays every counterexample natively against the real code,
validates sampled paths the same way, and writes evidence/<PROPERTY>.json.
"""
import fcntl, json, os, subprocess, sys, threading, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("SX_BUILD", os.path.join(HERE, "build"))
ENGINE = os.path.join(HERE, "engine", "target", "release", "symex")
HOOK = "--cfg bip324_verif"
# crates with threads: replayed natively under the recorded schedule (replay/rt.c)
SCHED = {"traf", "atraf"}
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def die(msg):
    print("CHECK-ERROR:", msg)
    sys.exit(2)


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else "", "timeout"


def build_engine():
    rc, o, e = run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "engine"), env=dict(os.environ, RUSTUP_TOOLCHAIN="stable"))
    if rc:
        die("the executor does not build:\n" + e[-2000:])


def build_ir(crate):
    """IR of one harness crate; without the hook when /repo does not build with it."""
    err = ""
    for flags in [HOOK, ""]:
        rc, o, e = run([os.path.join(HERE, "build_ir.sh"), crate], env=dict(os.environ, SX_FLAGS=flags, SX_BUILD=BUILD))
        if rc == 0:
            return flags
        err = e
    die(f"harness crate {crate} does not build against /repo:\n" + err[-3000:])


def build_native(crate, flags, profile):
    if crate in SCHED:
        exe = os.path.join(BUILD, "native", crate + "-sched")
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        rc, o, e = run([sys.executable, os.path.join(HERE, "replay", "build.py"), os.path.join(BUILD, crate + ".ll"), exe])
        if rc:
            die(f"native replay of {crate} does not build:\n" + (o + e)[-3000:])
        return exe
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(BUILD, "native"), RUSTFLAGS=flags)
    cmd = ["cargo", "build", "--offline", "-p", crate, "--bin", crate + "-replay"] + (["--release"] if profile == "release" else [])
    rc, o, e = run(cmd, cwd=os.path.join(HERE, "harness"), env=env)
    if rc:
        die(f"native replay of {crate} does not build:\n" + e[-3000:])
    return os.path.join(BUILD, "native", "release" if profile == "release" else "debug", crate + "-replay")


class Stop:
    """Ends what still runs once a violation is established."""

    def __init__(self):
        self.procs, self.on, self.lock = set(), False, threading.Lock()

    def stop(self):
        with self.lock:
            self.on = True
            for p in self.procs:
                p.kill()


def symex(crate, h, opts, stop, deadline):
    out = os.path.join(BUILD, "out", f"{crate}-{h}.json")
    h = h.split("@")[0]
    if os.path.exists(out):
        os.unlink(out)
    t = min(opts.get("timeout", 600), int(deadline - time.time()))
    if t <= 0:
        return {"error": "no time left"}
    cmd = [ENGINE, os.path.join(BUILD, crate + ".ll"), h, "--out", out, "--samples", "4", "--seed", os.environ.get("VERIF_SEED", "1"), "--timeout", str(t)]
    for k in ("steps", "preempt", "naps", "viol", "qtimeout"):
        if k in opts:
            cmd += ["--" + k, str(opts[k])]
    if opts.get("punctual"):
        cmd += ["--punctual"]
    with stop.lock:
        if stop.on:
            return {"stopped": True}
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        stop.procs.add(p)
    try:
        o, e = p.communicate(timeout=t + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
    with stop.lock:
        stop.procs.discard(p)
        if stop.on:
            return {"stopped": True}
    if p.returncode == 3:
        return {"missing": True}
    try:
        return json.load(open(out))
    except Exception:
        return {"error": f"exit {p.returncode}: " + (e or o)[-1500:]}


def replay(exe, h, path, timeout=60):
    return run([exe, h.split("@")[0], path], timeout=timeout)


def bounds(opts):
    return f"bounds: {opts.get('preempt', 2)} {opts.get('naps', 2)} {opts.get('punctual', 0)}"


def save(path, header, draws):
    with open(path, "w") as f:
        for l in header:
            f.write("# " + l.replace("\n", " ") + "\n")
        f.write("\n".join(draws) + "\n")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    work = []  # (crate, harness, opts)
    for crate, tiers in spec["run"].items():
        hs = dict(tiers.get("quick", {}))
        if tier == "thorough":
            hs.update(tiers.get("thorough", {}))
        work += [(crate, h, o) for h, o in hs.items()]
    crates = sorted({w[0] for w in work})
    flags = {}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        for c in crates:
            flags[c] = build_ir(c)
        # keep this run's IR apart from later builds
        native = {c: build_native(c, flags[c], "dev") for c in crates}
    t_build = time.time() - t0
    work.sort(key=lambda w: -w[2].get("cost", 1))
    stop, known = Stop(), known_findings(prop)
    if not known:  # nothing is listed: the first violation settles it
        work = [(c, h, {"viol": 1} | o) for c, h, o in work]
    deadline = t0 + (780 if tier == "quick" else 840)

    def one(w):
        """Explores one harness, and replays what it found."""
        crate, h, opts = w
        d = symex(crate, h, opts, stop, deadline)
        d["found"] = []
        for n, v in enumerate(d.get("violations", [])):
            label = f"{v['kind']}: {v['label']} at {v['loc']}"
            p = os.path.join(rdir, f"{prop}-{crate}-{h}-{n}.txt")
            hung, ok, msg = v["kind"] in ("hang", "livelock", "deadlock"), False, [""]
            for prof in ("dev",) if crate in SCHED else ("dev", "release"):
                if prof == "dev":
                    exe = native[crate]
                else:
                    with open(os.path.join(BUILD, "lock"), "w") as lk:
                        fcntl.flock(lk, fcntl.LOCK_EX)
                        exe = build_native(crate, flags[crate], "release")
                save(p, [f"property {prop}", label, bounds(opts), "stack: " + " < ".join(v["stack"][:8]), "schedule: " + " ".join(map(str, v["sched"])),
                         f"replay: {exe} {h.split('@')[0]} {p}"] + ["note: " + n for n in v["notes"][:20]], v["draws"])
                rc, o, e = replay(exe, h, p, 30 if hung else 60)
                msg = e.strip().splitlines() or [""]
                ok = rc == 124 or rc not in (0, 3) if hung else rc not in (0, 3, 124)
                if ok:
                    break
            text = " / ".join(x for x in msg if "CHECK-FAILED" in x or "panicked" in x)[:300] if ok else f"replay exit {rc}: {msg[-1][:200]}"
            d["found"].append((ok, label, p, text))
            if ok and not any(k in label or k in text for k in known):
                stop.stop()
                break
        return d

    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("SX_JOBS", "8"))) as ex:
        res = list(ex.map(one, work))
    problems, violations, findings = [], [], []
    tot = dict(merged=0, paths=0, cut_paths=0, steps=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_s=0.0)
    maxq, functions, harnesses, samples, validated = 0.0, {}, [], [], 0
    missing, stopped = [], 0
    for (crate, h, opts), d in zip(work, res):
        if d.get("missing"):
            (missing if opts.get("hook") and flags[crate] == "" else problems).append(f"{h}: no such harness in the IR")
            continue
        if d.get("stopped"):
            stopped += 1
            continue
        if "error" in d:
            problems.append(f"{h}: {d['error']}")
            continue
        for k in tot:
            tot[k] += d.get(k, 0)
        maxq = max(maxq, d["max_query_s"])
        for f, n in d["functions"].items():
            functions[f] = max(functions.get(f, 0), n)
        harnesses.append({"crate": crate} | {k: opts[k] for k in ("preempt", "naps", "punctual") if k in opts} | {k: d[k] for k in ("harness", "complete", "paths", "cut_paths", "steps", "queries", "sat", "unsat", "unknown", "solver_s", "wall_s", "covers", "checks")} | {"merged": d.get("merged", 0)})
        for ok, label, p, text in d["found"]:
            if ok:
                violations.append((h, label, p, text))
            else:
                problems.append(f"{h}: counterexample does not reproduce natively ({label}; {text}; {p})")
        if d["violations"]:
            continue
        if not d["complete"]:
            problems.append(f"{h}: exploration incomplete: {d['errors']}")
        if d["unknown"]:
            problems.append(f"{h}: {d['unknown']} queries without an answer")
        un = [c for c, b in d["covers"].items() if not b]
        if un:
            problems.append(f"{h}: never reached: {un}")
        if d["paths"] == d["cut_paths"]:
            problems.append(f"{h}: vacuous")
        for i, s in enumerate(d["samples"]):
            p = os.path.join(BUILD, "out", f"{prop}-{crate}-{h}-s{i}.txt")
            save(p, [f"sampled path of {h}", bounds(opts), "schedule: " + " ".join(map(str, s["sched"]))], s["draws"])
            rc, o, e = replay(native[crate], h, p)
            got = [l[4:] for l in o.splitlines() if l.startswith("OUT ")]
            if rc != 0 or got != s["outs"]:
                problems.append(f"{h}: executor and native run disagree on a sampled path ({p}, exit {rc}): {got} / {s['outs']} {e[-300:]}")
            else:
                validated += 1
            if len(samples) < 8 and i == 0:
                samples.append({"harness": f"{crate}/{h}", "inputs": [x if len(x) <= 64 else x[:64] + "..." for x in s["draws"]][:24], "observed": [x[:120] for x in s["outs"]][:12]})
    for l in missing:
        print("NOTE:", l, "(the hook is not available)")
    level = "model_checking"
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": {
            "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": samples,
            "meaning": "states: symbolic paths, each standing for every input that takes it; transitions: LLVM IR instructions executed symbolically; "
                       "traces_validated_against_impl: sampled paths whose solver model was run natively with the same observations",
            "states_merged": tot["merged"], "paths_outside_bounds": tot["cut_paths"], "forks": tot["forks"],
            "solver": "z3 " , "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
            "cache_hits": tot["cache_hits"], "solver_s": round(tot["solver_s"], 3), "max_query_s": round(maxq, 3),
            "bounds": spec["bounds"], "outside": spec["outside"],
            "functions_encoded": [f"{f} ({n} lines)" for f, n in sorted(functions.items())],
            "harnesses": harnesses, "build_s": round(t_build, 1),
            "note": "conditions the expression rewriter decides (both sides reduce to the same expression for all values) need no query",
        },
        "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    ev["coverage"]["solver"] = next((d.get("solver") for d in res if "solver" in d), "z3")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(harnesses)} harnesses, {tot['paths']} paths, {tot['steps']} instructions, {tot['queries']} queries "
          f"({tot['solver_s']:.1f} s), {validated} paths validated natively, {time.time()-t0:.1f} s")
    for p in problems:
        print("PROBLEM:", p)
    for h, label, p, msg in violations:
        print(f"  {h}: {label} [{msg}]")
    if stopped:
        print(f"  {stopped} harnesses were not finished once a violation was established")
    fresh = []
    for h, label, p, msg in violations:
        k = next((k for k in known if k in label or k in msg), None)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k}")
        else:
            fresh.append(p)
    if fresh:
        print(f"VIOLATION property={prop} replay={fresh[0]}")
        sys.exit(1)
    if problems:
        sys.exit(2)
    sys.exit(0)


def known_findings(prop):
    """Lines `finding: property=<id> <text identifying the failing label and site>`; `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"finding: property={prop} "):
                out.append(l.split(" ", 2)[2].strip())
    return out


if __name__ == "__main__":
    main()
