#!/usr/bin/env python3
"""Build one property's simulation from /repo's current tree and run it.
   check.py <ID> [--thorough] [--replay FILE] [--runs N] [--seconds S] [--keep] [--build-only]"""
import os, sys, subprocess, shutil, concurrent.futures as cf, hashlib, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++"
ENGINE = ["sched", "heap", "disk", "omp", "runner"]
ENG_FLAGS = ["-std=gnu++17", "-O2", "-g1", "-fopenmp", "-w"]
# library code: README's options, plus compiler instrumentation whose callbacks are the simulator
LIB_FLAGS = ["-std=gnu++17", "-O1", "-fno-tree-loop-im", "-fno-tree-fre", "-fno-tree-dse", "-fno-tree-sink", "-fno-tree-dominator-opts", "-g1", "-fopenmp", "-w", "-fno-omit-frame-pointer", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-fno-builtin-memcpy", "-U_FORTIFY_SOURCE", "-fno-builtin-snprintf", "-fno-builtin-sprintf", "-fno-builtin-strcpy", "-fno-builtin-strncpy", "-fno-builtin-strcat", "-fno-builtin-strncat"]
WRAP = ["-Wl,--wrap=" + f for f in "memcpy memmove memset snprintf sprintf vsnprintf vsprintf strcpy strncpy strcat strncat strtok".split()] + ["-Wl,--allow-multiple-definition"]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, " ".join(cmd), p.stdout

def parts(pid):
    """harness/<ID>*.cpp plus the shared parts it names in lines '//PARTS: a b c'"""
    src = [os.path.join(HERE, "harness", pid + ".cpp")]
    with open(src[0]) as f:
        for line in f:
            if line.startswith("//PARTS:"):
                src += [os.path.join(HERE, "harness", "part_%s.cpp" % x) for x in line.split(":", 1)[1].split()]
    return src

def build(pid, bdir):
    os.makedirs(bdir, exist_ok=True)
    jobs, objs = [], []
    for s in parts(pid):
        o = os.path.join(bdir, os.path.basename(s)[:-4] + ".o"); objs.append(o)
        jobs.append([CXX] + LIB_FLAGS + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "harness"), "-c", s, "-o", o])
    for e in ENGINE:
        o = os.path.join(bdir, "eng_" + e + ".o"); objs.append(o)
        jobs.append([CXX] + ENG_FLAGS + ["-c", os.path.join(HERE, "sim", e + ".cpp"), "-o", o])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for rc, cmd, out in ex.map(run, jobs):
            if rc: sys.stderr.write("build failed: %s\n%s\n" % (cmd, out[-6000:])); return None
    exe = os.path.join(bdir, "sim_" + pid)
    rc, cmd, out = run([CXX, "-no-pie", "-rdynamic", "-o", exe] + objs + WRAP + ["-lpthread", "-ldl"])
    if rc: sys.stderr.write("link failed: %s\n%s\n" % (cmd, out[-6000:])); return None
    return exe

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    args = []; keep = False; only_build = False
    while a:
        x = a.pop(0)
        if x == "--thorough": tier = "thorough"
        elif x == "--quick": tier = "quick"
        elif x == "--keep": keep = True
        elif x == "--build-only": only_build = keep = True
        else: args.append(x)
    bdir = os.path.join(HERE, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    t0 = time.time()
    exe = build(pid, bdir)
    if not exe: return 2
    print("%s: built from %s in %.1f s" % (pid, REPO, time.time() - t0), flush=True)
    if only_build: return 0
    ev = os.path.join(HERE, "evidence", pid + ".json")
    rep = os.path.join(HERE, "replays"); os.makedirs(rep, exist_ok=True); os.makedirs(os.path.dirname(ev), exist_ok=True)
    cmd = [exe, "--seed", str(int(seed) if seed.lstrip("-").isdigit() and int(seed) >= 0 else int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16)), "--out", rep, "--known", os.path.join(HERE, "known_findings.txt")]
    if "--replay" not in args: cmd += ["--evidence", ev]
    if tier == "thorough": cmd.append("--thorough")
    r = subprocess.run(cmd + args).returncode
    if not keep: shutil.rmtree(bdir, ignore_errors=True)
    return r if r in (0, 1) else 2

sys.exit(main())
