"""Compile a spec translation unit against the real code, run every harness, aggregate obligations."""
import os, sys, signal, subprocess, json, time, tempfile, shutil, multiprocessing, glob, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ll, execu

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("IRV_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"

def compile_ll(spec, outdir, extra=()):
    """real code + spec -> LLVM IR restricted to what the harnesses reach"""
    base = os.path.join(outdir, os.path.basename(spec)[:-3])
    cmd = ["clang++-18", "-std=c++17", "-DCURRENT_CI", "-DIRV_SYMBOLIC", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
           "-fno-access-control", "-w", "-I" + HERE, "-I" + os.path.join(VERIF, "specs"), "-I" + os.path.join(HERE, "shim"), "-I" + REPO, *extra, "-S", "-emit-llvm", spec, "-o", base + ".0.ll"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: return None, p.stderr
    names = re.findall(r'^define [^@]*@(irvh_\w+|irvx_\w+)\(', open(base + ".0.ll", errors="replace").read(), re.M)
    if not names: return None, "no harnesses"
    p = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-S", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(names), base + ".0.ll", "-o", base + ".ll"], capture_output=True, text=True)
    if p.returncode: return None, p.stderr
    os.unlink(base + ".0.ll")
    if "irv-opt: sroa" in open(spec).read(2000):  # for specs that do not name locals of loops
        p = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-S", "-passes=function(sroa,early-cse,simplifycfg)", base + ".ll", "-o", base + ".1.ll"], capture_output=True, text=True)
        if p.returncode: return None, p.stderr
        os.rename(base + ".1.ll", base + ".ll")
    return base + ".ll", [n for n in names if n.startswith("irvh_")]

def demangle(names):
    p = subprocess.run([LLVM + "llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))

def run_harness(mod, dem, name, opts):
    d = tempfile.mkdtemp(prefix="irv_")
    auto = {}
    try:
        # one path with every choice taken the same way, only to learn which function bodies to parse before forking
        for w in (False, True):
            cfg = dict(dem=dem, dir=d, sem=None, count=multiprocessing.Value("i", 0), autohavoc={}, deadline=time.time() + 20, warm=w, unroll=opts.get("unroll", 300), timeout_ms=2000)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(40); sys.stdout = open(os.devnull, "w")
                    execu.Exec(mod, cfg).main(name)
                finally: os._exit(3)
            os.waitpid(pid, 0)
            wf = d + "/warm%d" % w
            if os.path.exists(wf):
                bodies, names = open(wf).read().split("\n\n")
                ex = execu.Exec(mod, cfg)
                for n in bodies.split("\n"):
                    if n: ex.loop_info(mod.funcs[n])
                for n in names.split("\n"):
                    if n and n not in ex.model_cache: ex.model_cache[n] = ex.models.lookup(ex, n, dem.get(n, n)) or 0
        for rnd in range(12):
            for f in glob.glob(d + "/*"): os.unlink(f)
            cfg = dict(dem=dem, dir=d, sem=opts["sem"], count=multiprocessing.Value("i", 0), autohavoc=auto, deadline=opts.get("deadline", 1e18),
                       timeout_ms=opts.get("timeout_ms", 20000), max_paths=opts.get("max_paths", 20000), unroll=opts.get("unroll", 300))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    ex = execu.Exec(mod, cfg)
                    ex.main(name)
                finally:
                    os._exit(3)
            os.waitpid(pid, 0)
            paths = []
            for f in glob.glob(d + "/p*.json"):
                for l in open(f): paths.append(json.loads(l))
            new = False
            for p in paths:
                for k, v in p.get("autohavoc", []):
                    if (v, 0) not in auto.setdefault(k, []): auto[k].append((v, 0)); new = True
            if not new: break
        return paths
    finally:
        shutil.rmtree(d, ignore_errors=True)

def aggregate(name, paths):
    ob = {}
    res = dict(harness=name, paths=len(paths), ends={}, covers=[], unsupported=[], obligations=ob, funcs=set(), solver_s=0, queries=0, insts=0, notes=[])
    for p in paths:
        res["ends"][p["end"]] = res["ends"].get(p["end"], 0) + 1
        res["covers"] += p["covers"]; res["funcs"] |= set(p["funcs"]); res["solver_s"] += p["solver_s"]; res["queries"] += p["queries"]; res["insts"] += p["insts"]
        res["notes"] += p["notes"]
        if "abstract" in p["notes"]: res["abstract"] = True
        if p["unsupported"]: res["unsupported"].append(p["unsupported"])
        if p["end"] in ("timeout", "path-limit"): res["unsupported"].append(p["end"])
        for c in p["checks"]:
            o = ob.setdefault(c["label"], dict(kind=c["kind"], proved=0, failed=0, unknown=0, fails=[]))
            o[c["status"]] += 1
            if c["status"] != "proved": o["fails"].append({k: c.get(k) for k in ("status", "cex", "where", "path")})
    res["covers"] = sorted(set(res["covers"])); res["funcs"] = sorted(res["funcs"]); res["unsupported"] = sorted(set(res["unsupported"]))
    return res

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("spec"); ap.add_argument("-k", default=""); ap.add_argument("-v", action="store_true"); ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--unroll", type=int, default=300); ap.add_argument("--time", type=int, default=600)
    a = ap.parse_args()
    out = tempfile.mkdtemp(prefix="irvc_")
    t = time.time()
    llf, hs = compile_ll(a.spec, out)
    if llf is None: print("\n".join(l for l in hs.split("\n") if "error" in l)[:6000]); sys.exit(2)
    print("compiled in %.1fs, %d harnesses" % (time.time() - t, len(hs)))
    t = time.time(); mod = ll.Module(llf); dem = demangle(list(mod.funcs)); print("parsed in %.1fs (%d functions)" % (time.time() - t, len(mod.funcs)))
    sem = multiprocessing.Semaphore(a.j - 1)
    for h in hs:
        if a.k not in h: continue
        t = time.time()
        r = aggregate(h, run_harness(mod, dem, h, dict(sem=sem, unroll=a.unroll, deadline=time.time() + a.time)))
        n = sum(o["proved"] for o in r["obligations"].values()); f = sum(o["failed"] for o in r["obligations"].values()); u = sum(o["unknown"] for o in r["obligations"].values())
        print("%-44s paths %4d %s  proved %d failed %d unknown %d  insts %d q %d  solver %.1fs  wall %.1fs" % (h, r["paths"], r["ends"], n, f, u, r["insts"], r["queries"], r["solver_s"], time.time() - t), "covers", r["covers"])
        for x in r["unsupported"][:6]: print("    UNSUPPORTED", x[:1500])
        for l, o in r["obligations"].items():
            if o["failed"] or o["unknown"] or a.v:
                print("    ", l, {k: o[k] for k in ("proved", "failed", "unknown")})
                for x in o["fails"][:2]: print("        ", json.dumps(x)[:900])
    shutil.rmtree(out)
