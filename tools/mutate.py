#!/usr/bin/env python3
"""mutate.py FILE... : samples small changes of the given source files and tells which the checks of their properties miss.
usage: mutate.py --n 12 --seed 3 --log out.log   (files and properties from MAP)"""
import os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def P(*a): return ["P%02d" % i for i in a]
A = "avoidance/"; L = "local_planner/"; S = "safe_landing_planner/"; G = "global_planner/"
MAP = {
 A+"src/avoidance_node.cpp": P(7,8), A+"src/common.cpp": P(1,2,9,3,8,16,11), A+"src/histogram.cpp": P(4), A+"src/rviz_world_loader.cpp": P(21),
 A+"src/transform_buffer.cpp": P(6,20), A+"include/avoidance/common.h": P(3,1,9), A+"include/avoidance/usm.h": P(5), A+"include/avoidance/histogram.h": P(4), A+"include/avoidance/transform_buffer.h": P(6),
 G+"include/global_planner/analysis.h": P(30), G+"include/global_planner/bezier.h": P(30), G+"include/global_planner/cell.h": P(27), G+"include/global_planner/common.h": P(27,30), G+"include/global_planner/common_ros.h": P(30,31),
 G+"include/global_planner/node.h": P(27), G+"include/global_planner/search_tools.h": P(29,30), G+"include/global_planner/global_planner.h": P(28,31,32), G+"src/library/cell.cpp": P(27), G+"src/library/global_planner.cpp": P(28,29,30,31,32),
 G+"src/library/node.cpp": P(27,28,29), G+"src/nodes/global_planner_node.cpp": P(32,31,33), G+"include/global_planner/global_planner_node.h": P(31,32,33),
 L+"src/nodes/local_planner.cpp": P(17,16,13,20), L+"src/nodes/local_planner_nodelet.cpp": P(19,20,21), L+"src/nodes/local_planner_visualization.cpp": P(21), L+"src/nodes/planner_functions.cpp": P(10,11,12,14,16,17),
 L+"src/nodes/star_planner.cpp": P(13), L+"src/nodes/tree_node.cpp": P(13), L+"src/nodes/waypoint_generator.cpp": P(18), L+"src/utils/trajectory_simulator.cpp": P(15,13), L+"include/local_planner/local_planner.h": P(17,19),
 L+"include/local_planner/local_planner_nodelet.h": P(19,20), L+"include/local_planner/waypoint_generator.h": P(18),
 S+"src/nodes/safe_landing_planner.cpp": P(22,23), S+"src/nodes/safe_landing_planner_node.cpp": P(25,26), S+"src/nodes/safe_landing_planner_visualization.cpp": P(26), S+"src/nodes/waypoint_generator.cpp": P(24), S+"src/nodes/waypoint_generator_node.cpp": P(24),
 S+"include/safe_landing_planner/grid.hpp": P(22,23), S+"include/safe_landing_planner/safe_landing_planner.hpp": P(22,23),
}
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>=!\-])>(?![>=])", [">="]), (r"(?<![<=])<(?![<=])", ["<="]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"std::max\b", ["std::min"]), (r"std::min\b", ["std::max"]),
       (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\.x\(\)", [".y()"]), (r"\.y\(\)", [".x()"]), (r"\.z\(\)", [".y()"]), (r"\.x\b(?!\()", [".y"]), (r"\.y\b(?!\()", [".x"]), (r"\.z\b(?!\()", [".x"]),
       (r"(?<![\w.])\d+\.\d*f?\b", ["NUM"]), (r"(?<![\w.\[])\d+(?![\w.\]])", ["NUM"]), (r"!(?=[\w(])", [""]), (r"\+\+", ["--"]),
       (r"head<2>\(\)", ["head<1>()"]), (r"std::abs\b|std::fabs\b", [""]), (r"std::ceil\b", ["std::floor"]), (r"std::floor\b", ["std::ceil"]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"])]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|ROS_|namespace|using|template|std::cout|printf|}|\{|public:|private:|case |default:)|ROS_(INFO|WARN|ERROR|DEBUG)|cout|std::string_view")
def candidates(text):
    out = []; block = False
    for i, l in enumerate(text):
        if "/*" in l: block = True
        if block:
            if "*/" in l: block = False
            continue
        if SKIP.search(l): continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                if pat.startswith((r"(?<![<>", r"(?<![<=]")) and re.search(r"template|vector|<\w+>|Ptr|_cast|std::(pair|map|function|unique|lock|shared|array|queue|deque)|Eigen::|pcl::|->", code): continue
                for r in rep:
                    if r == "NUM":
                        v = m.group(0); f = v.endswith("f"); x = float(v.rstrip("f"))
                        isf = "." in v
                        for y in ([x * 2 if x else 1.0, x / 2 if isf and x else x + 1]):
                            out.append((i, code[:m.start()] + (repr(y) + ("f" if f else "") if isf else str(int(y))) + code[m.end():] + "\n"))
                    else: out.append((i, code[:m.start()] + r + code[m.end():].rstrip("\n") + "\n"))
        if code.rstrip().endswith(";") and not re.match(r"\s*(return|[\w:<>,&* ]+ [\w]+( =|;|\()|break|continue|throw|for|extern|static|const|virtual)", code): out += [(i, "  ;\n")] * 2
    return [c for c in out if c[1].strip() != text[c[0]].strip()]
def main():
    a = sys.argv[1:]; opt = {}
    files = []
    while a:
        if a[0].startswith("--"): opt[a[0][2:]] = a[1]; a = a[2:]
        else: files.append(a.pop(0))
    n = int(opt.get("n", 10)); rnd = random.Random(int(opt.get("seed", 1))); log = open(opt.get("log", "/tmp/mutate.log"), "a")
    T = tempfile.mkdtemp(prefix="/tmp/mutrepo."); subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {T}", shell=True)
    env = dict(os.environ, VERIF_REPO=T)
    try:
        jobs = []
        for f in files or sorted(MAP):
            if not os.path.exists(f"{T}/{f}"): print("no", f); continue
            t = open(f"{T}/{f}").readlines(); c = candidates(t)
            seen = set()
            for m in rnd.sample(c, min(len(c), 3 * n)):
                if len(seen) >= n or m in seen: continue
                seen.add(m); jobs.append((f, m))
        if "shuffle" in opt: rnd.shuffle(jobs)
        for f, (i, new) in jobs:
            t = open(f"{T}/{f}").readlines(); old = t[i]
            orig = "".join(t); t[i] = new; open(f"{T}/{f}", "w").write("".join(t))
            t0 = time.time(); verdict = "MISSED"
            for p in MAP[f]:
                r = subprocess.run([sys.executable, V + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if "VIOLATION" in r.stdout: verdict = "caught " + p; break
                if r.returncode not in (0, 1): verdict = "nobuild" if "does not compile" in r.stdout else "RC%d" % r.returncode; break
            open(f"{T}/{f}", "w").write(orig)
            log.write(f"{verdict:12s} {time.time()-t0:5.0f}s {f.split('/')[-1]}:{i+1}\n   - {old.strip()}\n   + {new.strip()}\n"); log.flush()
    finally: shutil.rmtree(T)
main()
