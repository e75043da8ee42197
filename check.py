#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current tree.  check.py replay FILE: replays a failing case.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough, or --thorough)."""
import json, os, shutil, subprocess, sys, time
import build
from targets import TARGETS, PROPS
V = build.V

def program(target):
    t = TARGETS[target]
    src = [f"{V}/engine/pbt.cpp"] + [f"{V}/harness/{h}" for h in t["harness"]]
    for s in t["src"]:
        src.append((f"{build.REPO}/{s[0]}", s[1]) if isinstance(s, tuple) else f"{build.REPO}/{s}")
    return build.build(target, src, flags=t.get("flags", ()), libs=t.get("libs", ()), san=t.get("san", True))

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=3"
    for k in ("GAZEBO_MODEL_PATH",):
        e.pop(k, None)
    return e

def main():
    args = sys.argv[1:]
    tier = "thorough" if "--thorough" in args else ("quick" if "--quick" in args else os.environ.get("VERIF_TIER", "quick"))
    pos = [a for a in args if not a.startswith("--")]
    extra = []
    for a in args:
        if a.startswith("--facet=") or a.startswith("--scale="):
            extra += a.split("=", 1)
    if pos[0] == "replay":
        f = pos[1]
        pid = open(f).readline().split()[1].split(".")[0]
        exe = program(PROPS[pid])
        return subprocess.call([exe, "replay", f], env=env())
    pid = pos[0]
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(int(seed))
    except ValueError:
        seed = "1"
    t0 = time.time()
    exe = program(PROPS[pid])
    if exe is None:
        print(f"{pid}: the tree does not compile against the harness; no answer", file=sys.stderr)
        return 2
    tb = time.time() - t0
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/out/replay", exist_ok=True)
    budget = os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "560")
    cmd = [exe, "run", "--id", pid, "--seed", seed, "--tier", tier, "--jobs", "8", "--out", f"{V}/evidence/{pid}.json",
           "--replaydir", V + "/out/replay", "--known", V + "/KNOWN_FINDINGS.txt", "--budget", budget] + extra
    rc = subprocess.call(cmd, env=env())
    print(f"{pid}: build {tb:.1f} s, total {time.time() - t0:.1f} s", file=sys.stderr)
    return rc

if __name__ == "__main__":
    sys.exit(main())
