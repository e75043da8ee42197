"""Builds programs from /repo's current tree, the stand-ins in shim/ and the files in harness/."""
import concurrent.futures, glob, hashlib, os, shutil, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(V, "out")
CFG = {"local_planner": ["LocalPlannerNode"], "safe_landing_planner": ["SafeLandingPlannerNode", "WaypointGeneratorNode"],
       "global_planner": ["GlobalPlannerNode"]}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,null", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]

def gen(dst):
    os.makedirs(dst, exist_ok=True)
    for pkg, cfgs in CFG.items():
        for c in cfgs:
            subprocess.check_call([sys.executable, V + "/shim/gen/gen_cfg.py", dst, pkg, f"{REPO}/{pkg}/cfg/{c}.cfg"])
        msgs = sorted(glob.glob(f"{REPO}/{pkg}/msg/*.msg"))
        if msgs:
            subprocess.check_call([sys.executable, V + "/shim/gen/gen_msgs.py", dst, pkg] + msgs)

def includes(g):
    return [f"-I{V}/engine", f"-I{V}/harness", f"-I{V}/shim/ros_core", f"-I{V}/shim/ros_msgs", f"-I{g}"] + \
           [f"-I{REPO}/{p}/include" for p in ("avoidance", "local_planner", "safe_landing_planner", "global_planner")] + \
           ["-isystem", "/usr/include/eigen3"]

def build(name, sources, flags=(), libs=(), san=True, jobs=8):
    """sources: list of path or (path, [extra flags]). Returns the program's path, or None when something does not compile."""
    d = os.path.join(OUT, "build", name)
    g = os.path.join(d, "gen")
    shutil.rmtree(g, ignore_errors=True)
    gen(g)
    base = ["g++", "-std=c++14", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DVERIF_NO_ROS", f"-ffile-prefix-map={REPO}=/repo"] + \
           (SAN if san else []) + list(flags)
    env = dict(os.environ)
    cc = ["ccache"] if shutil.which("ccache") else []
    env.setdefault("CCACHE_DIR", os.path.join(OUT, "ccache"))
    env.setdefault("CCACHE_MAXSIZE", "2G")
    objs, cmds = [], []
    for s in sources:
        s, extra = (s, []) if isinstance(s, str) else s
        o = os.path.join(d, hashlib.sha1((s + " ".join(extra)).encode()).hexdigest()[:8] + "_" + os.path.basename(s) + ".o")
        objs.append(o)
        cmds.append(cc + base + list(extra) + includes(g) + ["-c", s, "-o", o])
    # longest first: harness files are the big ones
    cmds.sort(key=lambda c: -os.path.getsize(c[-3]))
    def run(c):
        r = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, c, r.stdout
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(run, cmds))
    bad = [r for r in res if r[0] != 0]
    for r in bad:
        print(" ".join(r[1]), file=sys.stderr)
        print(r[2][:6000], file=sys.stderr)
    if bad:
        return None
    exe = os.path.join(d, name)
    r = subprocess.run(base + objs + ["-o", exe] + list(libs) + ["-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[:8000], file=sys.stderr)
        return None
    return exe
