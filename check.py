#!/usr/bin/env python3-vt
"""One check: discharge every obligation of a property's contracts against /repo's current source.

  check.py PROPERTY [--tier quick|thorough]     exit 0: held; exit 1 and a VIOLATION line: violated
  check.py replay FILE                          replay a recorded violation against the real code
"""
import os, sys, json, time, tempfile, shutil, subprocess, multiprocessing, argparse, re, signal, threading
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "irv")); sys.path.insert(0, VERIF)
import verify, ll
from props import PROPS
REPO = verify.REPO
SPECS = os.path.join(VERIF, "specs")

def native_cmd(spec, out, extra=()):
    return ["clang++-18", "-std=c++17", "-DCURRENT_CI", "-DIRV_NATIVE", "-O1", "-fsanitize=address", "-fno-access-control", "-w",
            "-I" + os.path.join(VERIF, "irv"), "-I" + SPECS, "-I" + REPO, *extra, spec, os.path.join(VERIF, "irv", "irv_native.cc"), "-o", out, "-pthread"]

def build_native(spec, out, extra=()):
    p = subprocess.run(native_cmd(spec, out, extra), capture_output=True, text=True)
    return None if p.returncode == 0 else (p.stderr or "failed")

def write_input(path, cex, head):
    with open(path, "w") as f:
        for h in head: f.write("# " + h.replace("\n", "\n# ") + "\n")
        for s, l in cex.get("streams", {}).items():
            for v in l:
                if isinstance(v, list): f.write("s %s %s\n" % (s, bytes(v).hex() or "-"))
                else: f.write("v %s %s\n" % (s, v))
        for m, l in cex.get("maps", {}).items(): f.write("m %s %s\n" % (m, " ".join(l)))

def run_native(binary, args, timeout):
    """(outcome, text): held, violated, precondition, error"""
    d = tempfile.mkdtemp(prefix="irvrun_")
    try:
        p = subprocess.run([binary] + args, capture_output=True, text=True, timeout=timeout, cwd=d, errors="replace", start_new_session=True)
    except subprocess.TimeoutExpired:
        return "error", "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    t = p.stdout + p.stderr
    if p.returncode == 0: return "held", t
    if p.returncode == 1: return "precondition", t
    if p.returncode == 3: return "error", t
    return "violated", t

class Job:
    pass

def verify_spec(spec, rx, opts, work, out):
    """in a child process: verify the harnesses of one spec; results to a file"""

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay": return replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("-v", action="store_true"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property; P = PROPS[pid]; quick = a.tier == "quick"
    t0 = time.time()
    budget = P.get("budget", 420) if quick else P.get("budget_thorough", 3000)
    hard = t0 + (780 if quick else 6000)
    ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    rdir = os.path.join(ev, "replays"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "_"): os.unlink(os.path.join(rdir, f))
    work = tempfile.mkdtemp(prefix="irv_%s_" % pid)
    ncpu = max(2, os.cpu_count() or 2)
    sem = multiprocessing.Semaphore(max(1, ncpu - 1))
    specs = [(s, None) if isinstance(s, str) else s for s in P["specs"]]
    undecided = []        # reasons
    results = []          # per harness
    natives = {}          # spec -> (binary or None, error)
    compiled = {}
    lock = threading.Lock()
    compsem = threading.Semaphore(ncpu)

    def comp(spec):
        with compsem:
            r = verify.compile_ll(os.path.join(SPECS, spec), work, P.get("cflags", ()))
        compiled[spec] = r
    def nat(spec):
        with compsem:
            b = os.path.join(work, os.path.basename(spec)[:-3] + ".native")
            e = build_native(os.path.join(SPECS, spec), b, P.get("cflags", ()))
        natives[spec] = (b, None) if e is None else (None, e)
    ths = [threading.Thread(target=comp, args=(s,)) for s, _ in specs if not native_only(s)]
    nths = [threading.Thread(target=nat, args=(s,)) for s, _ in specs]
    for t in ths + nths: t.start()
    for t in ths: t.join()
    for s, _ in specs:
        if s in compiled and compiled[s][0] is None:
            undecided.append("%s does not compile against the current source: %s" % (s, first_errors(compiled[s][1])))
    # ---- discharge
    for spec, rx in specs:
        if spec not in compiled or compiled[spec][0] is None: continue
        path, hs = compiled[spec]
        try:
            mod = ll.Module(path)
        except Exception as e:
            undecided.append("%s: cannot read the IR: %r" % (spec, e)); continue
        dem = verify.demangle(list(mod.funcs))
        for h in hs:
            if rx and not re.search(rx, h[5:]): continue
            if time.time() > t0 + budget:
                undecided.append("%s not attempted: time" % h); results.append(dict(harness=h, spec=spec, skipped=True)); continue
            th = time.time()
            opts = dict(sem=sem, deadline=min(t0 + budget, time.time() + P.get("harness_s", 200 if quick else 900)), timeout_ms=P.get("solver_ms", 20000 if quick else 60000), max_paths=P.get("max_paths", 20000 if quick else 200000), unroll=P.get("unroll", 300))
            try:
                r = verify.aggregate(h, verify.run_harness(mod, dem, h, opts))
            except Exception as e:
                undecided.append("%s: %r" % (h, e)); continue
            r["spec"] = spec; r["wall"] = round(time.time() - th, 2); r["dem"] = {f: dem.get(f, f) for f in r["funcs"]}
            results.append(r)
            if a.v: print(h, r["ends"], "proved", sum(o["proved"] for o in r["obligations"].values()), "failed", sum(o["failed"] for o in r["obligations"].values()), "unknown", sum(o["unknown"] for o in r["obligations"].values()), r["wall"], "s", r["unsupported"][:1], flush=True)
    for t in nths: t.join()
    for s, _ in specs:
        if natives[s][0] is None: undecided.append("%s: native build failed: %s" % (s, first_errors(natives[s][1])))
    # ---- judge
    violations = []       # (harness, label, replay path, suffix)
    suspects = []         # harnesses to search for a witness
    nfi = []              # definite failures without a witness so far
    for r in results:
        if r.get("skipped"): suspects.append((r["spec"], r["harness"][5:])); continue
        h = r["harness"][5:]
        failed = [(l, o) for l, o in r["obligations"].items() if o["failed"] or o["unknown"]]
        ok_paths = sum(v for k, v in r["ends"].items() if k == "ok")
        if r["unsupported"]: undecided.append("%s: %s" % (h, "; ".join(x[:300] for x in r["unsupported"][:2])))
        if not failed and not r["unsupported"]:
            if not r["obligations"]: undecided.append("%s: generated no obligation" % h)
            elif not r["covers"]: undecided.append("%s: no execution reaches the end of the contract (vacuous)" % h)
            else: r["discharged"] = True; continue
        suspects.append((r["spec"], h))
        binary = natives[r["spec"]][0]
        for l, o in failed:
            done = False
            for i, x in enumerate(o["fails"][:6]):
                if x.get("cex") and not x["cex"].get("unreplayable") and binary:
                    f = os.path.join(rdir, "%s_%s_%d.txt" % (pid, h, len(violations)))
                    head = ["property=%s spec=%s harness=%s" % (pid, r["spec"], h), "failed obligation: %s" % l, "in: %s" % " > ".join(x.get("where") or [])]
                    write_input(f, x["cex"], head)
                    res, txt = run_native(binary, ["replay", h, f], 60)
                    if res == "violated":
                        with open(f, "a") as g: g.write("# real code: " + txt[:3000].replace("\n", "\n# ") + "\n")
                        violations.append((h, l, f, "")); done = True; break
                    os.unlink(f)
            if done: break
        else:
            for l, o in failed:
                if o["failed"] and not r["unsupported"]: nfi.append((r, l, o))
                else: undecided.append("%s: obligation '%s' %s" % (h, l, "unknown" if o["unknown"] else "failed while part of the function is out of reach"))
    known = load_known(pid)
    def is_known(v): return any(x["harness"] == v[0] and x["label"] == v[1] for x in known)
    # ---- bounded witness search on the real code: always short, longer where the proof did not go through
    searched = {}
    if all(is_known(v) for v in violations):
        jobs = []
        for spec, rx in specs:
            b = natives[spec][0]
            if not b: continue
            l = subprocess.run([b, "list"], capture_output=True, text=True).stdout.split()
            for h in l:
                if rx and not re.search(rx, h): continue
                sus = (spec, h) in suspects or any(u.startswith(spec) for u in undecided)
                r = [x for x in results if x["spec"] == spec and x["harness"][5:] == h]
                bounded = native_only(spec) or not r or not any(o["kind"] == "property" for o in r[0].get("obligations", {}).values())
                secs = P.get("native_s", 20 if quick else 120) if (sus or bounded) else (2 if quick else 20)
                jobs.append((spec, h, b, secs))
        qlock = threading.Lock()
        def worker():
            while True:
                with qlock:
                    if not jobs: return
                    spec, h, b, secs = jobs.pop(0)
                secs = min(secs, max(1, hard - time.time() - 60))
                f = os.path.join(work, h + ".in")
                res, txt = run_native(b, ["random", h, str(seed), str(P.get("trials", 10**9)), str(secs), f], secs + 90)
                with qlock:
                    searched[h] = (res, txt.strip()[-300:])
                    if res == "violated":
                        g = os.path.join(rdir, "%s_%s_s.txt" % (pid, h))
                        with open(g, "w") as o:
                            o.write("# property=%s spec=%s harness=%s\n# found by running the same contract on concrete inputs\n" % (pid, spec, h))
                            o.write(open(f).read() if os.path.exists(f) else "")
                            o.write("\n# real code: " + txt[:3000].replace("\n", "\n# ") + "\n")
                        m = re.search(r'FAILED (.*)', txt)
                        violations.append((h, m.group(1) if m else "crash", g, ""))
        ws = [threading.Thread(target=worker) for _ in range(ncpu)]
        for w in ws: w.start()
        for w in ws: w.join()
    if all(is_known(v) for v in violations):
        for r, l, o in nfi:
            kind = o["kind"]
            h = r["harness"][5:]
            if kind in ("property", "safety") and not exact(r):
                f = os.path.join(rdir, "%s_%s_o.txt" % (pid, h))
                with open(f, "w") as g:
                    g.write("# property=%s spec=%s harness=%s\n# failed obligation (%s): %s\n# no failing input found; verifier output:\n" % (pid, r["spec"], h, kind, l))
                    g.write(json.dumps(o["fails"][:3], indent=1) + "\n")
                violations.append((h, l, f, " no-failing-input-found"))
            else:
                undecided.append("%s: obligation '%s' (%s) not discharged, and no failing input on the real code" % (h, l, kind))
    reported = [v for v in violations if not is_known(v)]
    for x in known: print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    # ---- evidence
    isb = lambda r: r["harness"][5:].startswith("bounded")
    tot = sum(o["proved"] + o["failed"] + o["unknown"] for r in results if not isb(r) for o in r.get("obligations", {}).values())
    dis = sum(o["proved"] for r in results if not isb(r) for o in r.get("obligations", {}).values())
    btot = sum(o["proved"] + o["failed"] + o["unknown"] for r in results if isb(r) for o in r.get("obligations", {}).values())
    bdis = sum(o["proved"] for r in results if isb(r) for o in r.get("obligations", {}).values())
    fs, models_, contracts = set(), set(), set()
    for r in results:
        for f in r.get("funcs", []):
            if f.startswith("model:"): models_.add(f[6:])
            elif f.startswith("contract:"): contracts.add(r["dem"].get(f, f)[9:] if not r["dem"].get(f[9:]) else f[9:])
            else: fs.add(shorten(r["dem"].get(f, f)))
    repo_fs = sorted(x for x in fs if not x.startswith(("std::", "irv", "__gnu", "operator", "World", "void std::")))
    d = dict(property=pid, tier=a.tier, seed=seed, level=P.get("level", "proof"),
             coverage=dict(obligations=tot, discharged=dis, bounded_stand_ins=dict(obligations=btot, discharged=bdis, note="contracts named bounded_*: all inputs up to the bound stated in the contract; not counted as proved"), checker_cmd="python3-vt /verif/check.py %s --tier %s" % (pid, a.tier),
                           trusted_base=["clang 18 front end (C++ to LLVM IR, -O0)", "irv/execu.py VC generator", "z3 5.3.2 (cvc5 1.1.2 fallback)", "contracts of std::string, std::unordered_map and other runtime functions listed in trusted_contracts"],
                           trusted_contracts=sorted(models_), assumed_function_contracts=sorted(demangle_list(contracts)),
                           functions_verified=repo_fs[:400], functions_verified_count=len(repo_fs),
                           harnesses=[dict(contract=r["harness"][5:], spec=r["spec"], paths=r.get("paths"), obligations={l: {k: o[k] for k in ("kind", "proved", "failed", "unknown")} for l, o in r.get("obligations", {}).items()}, covers=r.get("covers"), discharged=bool(r.get("discharged")), solver_s=round(r.get("solver_s", 0), 2), queries=r.get("queries"), wall_s=r.get("wall")) for r in results],
                           backend={"z3": sum(r.get("queries", 0) for r in results), "cvc5": sum(r.get("notes", []).count("cvc5-unsat") for r in results)},
                           solver_s=round(sum(r.get("solver_s", 0) for r in results), 2),
                           bounded_native_runs=searched, undecided=undecided),
             assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(reported))
    with open(os.path.join(ev, pid + ".json"), "w") as f: json.dump(d, f, indent=1)
    if not a.keep: shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d of %d obligations discharged, bounded stand-ins: %d of %d; %d contracts, %d functions of the repository, %.1f s" % (pid, a.tier, dis, tot, bdis, btot, len(results), len(repo_fs), time.time() - t0))
    for u in undecided: print("UNDECIDED (bounded run on the real code instead): " + u[:700])
    for h, l, f, sfx in reported:
        print("  contract %s, obligation: %s" % (h, l))
        print("VIOLATION property=%s replay=%s%s" % (pid, f, sfx))
    if reported: return 1
    return 0

def native_only(s): return os.path.basename(s).startswith("native_")
def exact(r):
    """no abstraction was used (no loop invariant, no assumed contract): a countermodel is then an input, and one that
    does not fail on the real code means that the tool, not the code, is wrong"""
    return not any(o["kind"] == "loop" for o in r["obligations"].values()) and not any(f.startswith("contract:") for f in r["funcs"]) and not r.get("abstract")
def first_errors(t):
    l = [x for x in t.split("\n") if "error" in x]
    return " | ".join(l[:2])[:600] if l else t[-300:]
def shorten(d):
    import execu
    try: return execu.short(d)
    except Exception: return d[:100]
def demangle_list(names):
    n = list(names)
    return [shorten(x) for x in verify.demangle(n).values()] if n else []
def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get("findings", []) if x["property"] == pid]

def replay(path):
    head = open(path).readline()
    m = re.search(r'spec=(\S+) harness=(\S+)', head)
    b = tempfile.mktemp(prefix="irvreplay_")
    e = build_native(os.path.join(SPECS, m.group(1)), b)
    if e: print(e[-3000:]); return 2
    res, txt = run_native(b, ["replay", m.group(2), path], 60)
    os.unlink(b); print(res); print(txt)
    return 1 if res == "violated" else 0

if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    sys.exit(main())
