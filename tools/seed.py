#!/usr/bin/env python3
"""seed.py make ID PROP   (in /tmp/seedwt, edited)  | verify ID... | check ID [PROP...] | all
Helper for planted bugs: verifies them in scratch copies, and runs checks against them."""
import os, subprocess, sys, json, shutil
SEEDS = "/verif/seeded"
WT = "/tmp/seedwt"
MIR = "/tmp/seedmir"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def fresh():
    sh(f"rm -rf {WT}; git -C /repo worktree prune; cp -a /repo {WT}; git -C {WT} checkout -q -- .")


def tests(patch):
    """Runs the stable tests in a copy of the mirror."""
    if not os.path.exists(MIR):
        sh("bash /opt/vp/build.sh")
        sh(f"cp -a /opt/vp/mirror {MIR}")
    sh(f"rsync -a --exclude target /opt/vp/mirror/ {MIR}/ || cp -a /opt/vp/mirror/protocol /opt/vp/mirror/traffic {MIR}/")
    for d in ("protocol/src", "traffic/src"):
        sh(f"cp -a /opt/vp/mirror/{d}/. {MIR}/{d}/")
    r = sh(f"patch -p1 < {patch}", cwd=MIR)
    if r.returncode:
        return False, r.stdout
    sh(f"touch {MIR}/protocol/src/*.rs {MIR}/traffic/src/*.rs")
    r = sh(". /opt/vp/env.sh; timeout 600 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd=MIR)
    for d in ("protocol/src", "traffic/src"):
        sh(f"rm -f {MIR}/{d}/*.orig {MIR}/{d}/*.rej")
    ok = r.returncode == 0
    return ok, "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "panicked" in l or l.startswith("error") or "failed" in l)[:2000] + ("" if ok else r.stdout[-600:])


def demo(i, d):
    tmp = "/tmp/seeddemo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(f"{SEEDS}/{i}", tmp)
    for f in os.listdir(tmp):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.unlink(f"{tmp}/{f}")
    r = sh(f"timeout 300 bash {tmp}/demo.sh", cwd=d)
    return r.returncode, r.stdout[-600:]


def verify(i):
    fresh()
    p = f"{SEEDS}/{i}/patch.diff"
    rc0, o0 = demo(i, WT)
    r = sh(f"git apply {p}", cwd=WT)
    if r.returncode:
        return print(i, "PATCH DOES NOT APPLY", r.stdout)
    rc1, o1 = demo(i, WT)
    ok, log = tests(p)
    good = rc0 == 0 and rc1 != 0 and ok
    print(i, "GOOD" if good else "BAD", f"demo clean={rc0} patched={rc1} tests={ok}", flush=True)
    if rc0:
        print(o0)
    if rc1 == 0 or not good:
        print(o1)
    if not ok:
        print(log)


def check(i, props, tier="quick"):
    meta = json.load(open(f"{SEEDS}/{i}/meta.json"))
    r = sh(f"git -C /repo apply {SEEDS}/{i}/patch.diff")
    assert r.returncode == 0, r.stdout
    try:
        for p in props or [meta["property"]]:
            r = sh(f"timeout 900 python3 check.py {p} {tier}", cwd="/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "PROBLEM", "  c", "CHECK-ERROR"))]
            print(i, p, "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION") for l in v) else f"MISSED rc={r.returncode}", flush=True)
            for l in v[:6]:
                print("      ", l[:260])
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "fresh":
        fresh()
    elif a[0] == "save":  # save ID: diff of /tmp/seedwt
        os.makedirs(f"{SEEDS}/{a[1]}", exist_ok=True)
        r = sh("git diff", cwd=WT)
        open(f"{SEEDS}/{a[1]}/patch.diff", "w").write(r.stdout)
    elif a[0] == "verify":
        for i in a[1:] or sorted(os.listdir(SEEDS)):
            verify(i)
    elif a[0] == "check":
        check(a[1], a[2:])
    elif a[0] == "checkall":
        for i in a[1:] or sorted(os.listdir(SEEDS)):
            check(i, [])
