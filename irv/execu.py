"""Symbolic executor / verification-condition generator over LLVM IR.

Every harness (`irvh_*` function of a spec translation unit) is executed from its entry on symbolic
inputs.  Branches on symbolic conditions split the proof; loops named by `irv_loop` are cut with their
invariant (checked on entry, havoc, assumed, checked on the back edge); calls named by `irv_replace`
are replaced with the callee's contract; every other call enters the callee's IR.  Every `irv_check` on
every path is one obligation for the SMT solver.
"""
import os, sys, re, time, json, subprocess, struct, math
import z3
import ll
from ll import Unsupported, I1, I8, I16, I32, I64, PTR

sys.setrecursionlimit(200000)

class Undef:
    def __repr__(self): return "UNDEF"
UNDEF = Undef()

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return "Ptr(%s+%s)" % (self.obj, self.off)
NULL = Ptr(None, 0)

class PathEnd(Exception):
    def __init__(self, why): self.why = why
class CxxThrow(Exception):
    def __init__(self, ptr, tinfo): self.ptr = ptr; self.tinfo = tinfo
class NotHandled(Exception):
    pass
NOT_HANDLED = object()

def is_sym(v): return isinstance(v, z3.ExprRef)

class Obj:
    __slots__ = ("id", "size", "cells", "fill", "name", "kind", "alive", "const", "fn", "model", "arrcache")
    def __init__(self, id, size, name, kind, fill):
        self.id = id; self.size = size; self.cells = {}; self.fill = fill; self.name = name; self.kind = kind
        self.alive = True; self.const = False; self.fn = None; self.model = None; self.arrcache = None
    def __repr__(self): return "<%s#%d %s>" % (self.kind, self.id, self.name)

class Buf(Obj):
    """A byte buffer of possibly symbolic length: cells are concrete-index bytes, arr an SMT array for the rest."""
    __slots__ = ("arr", "bytes", "len", "cap")
    def __init__(self, id, name, ln, arr=None, data=None):
        super().__init__(id, None, name, "buf", "undef")
        self.arr = arr            # z3 Array(BV64 -> BV8) or None
        self.bytes = data if data is not None else {}     # int -> 8-bit value, overrides arr
        self.len = ln

class Frame:
    __slots__ = ("fn", "regs", "byname", "loopctx", "exc", "byval", "varargs")
    def __init__(self, fn):
        self.fn = fn; self.regs = {}; self.loopctx = {}; self.exc = None

BV64S = z3.BitVecSort(64); BV8S = z3.BitVecSort(8)

def bv(v, n):
    """python int / z3 -> z3 bitvec of n bits"""
    if isinstance(v, int): return z3.BitVecVal(v, n)
    return v
def tob(v):
    """i1 value -> z3 Bool"""
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef): return v == z3.BitVecVal(1, 1)
    return v

def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

ARITH = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
}
def sgn(v, n): return v - (1 << n) if v >> (n - 1) else v

class Exec:
    def __init__(self, mod, cfg):
        self.m = mod; self.cfg = cfg
        self.dem = cfg["dem"]                 # mangled -> demangled
        self.solver = z3.Solver(); self.solver.set("timeout", cfg.get("timeout_ms", 20000))
        self.pc = []
        self.nobj = 1; self.nsym = 0
        self.gobjs = {}; self.fobjs = {}; self.byid = {}
        self.ghost = {}
        self.frames = []
        self.replace = []; self.loops = []; self._repl_cache = {}
        self.monitors = {}; self.shared = {}; self.abstract = False; self.facts = {}; self.fact_done = {}; self.find_cache = {}; self.reads = {}; self.keep = []
        self.events = []                       # ghost trace
        self.inputs = []; self.streams = ["main"]; self.stream_cnt = {}; self.maps = {}
        self.children = []
        self.decided = {}
        self.path = []                         # decisions, for reports
        self.out = None
        self.results = dict(checks=[], covers=[], end=None, funcs=set(), notes=[], insts=0, unsupported=None, solver_s=0.0, queries=0)
        self.tyids = {}
        self.caught = []
        self.wctx = []                         # active loop frame checks
        self.autohavoc = cfg.get("autohavoc", {})
        self.deadline = cfg.get("deadline", 1e18)
        self.reached_labels = set()
        self.errno_obj = None
        self.in_ghost = 0
        self.atomic_silent = 0
        import models
        self.models = models
        self.model_cache = mod.__dict__.setdefault('model_cache', {})

    # ------------------------------------------------------------ symbols and solver
    def fresh(self, n, hint="v"):
        self.nsym += 1
        if n == 1: return z3.Bool("%s!%d" % (hint, self.nsym))
        return z3.BitVec("%s!%d" % (hint, self.nsym), n)
    def fresh_arr(self, hint="arr"):
        self.nsym += 1
        return z3.Array("%s!%d" % (hint, self.nsym), BV64S, BV8S)

    def add(self, c):
        self.pc.append(c); self.solver.add(c)

    def query(self, extra):
        """sat / unsat / unknown of pc and extra"""
        t = time.time()
        if t > self.deadline: raise PathEnd("timeout")
        self.solver.push()
        self.solver.add(extra)
        r = self.solver.check()
        self.last_model = None
        if r == z3.sat:
            self.last_model = self.solver.model()
        self.solver.pop()
        if r == z3.unknown:
            r = self.fallback(extra)
        self.results["solver_s"] += time.time() - t; self.results["queries"] += 1
        return r

    def fallback(self, extra):
        s = z3.SolverFor("QF_AUFBV") if True else z3.Solver()
        s.set("timeout", self.cfg.get("timeout_ms", 20000) * 2)
        for c in self.pc: s.add(c)
        s.add(extra)
        r = s.check()
        self.last_model = None
        if r == z3.sat: self.last_model = s.model()
        if r == z3.unknown and self.cfg.get("cvc5", True):
            r2 = self.cvc5(s.to_smt2())
            if r2 == "unsat":
                self.results["notes"].append("cvc5-unsat"); return z3.unsat
        return r
    def cvc5(self, smt):
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (self.cfg.get("timeout_ms", 20000) * 2), "-"], input="(set-logic ALL)\n" + smt, capture_output=True, text=True)
            return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        except Exception:
            return "unknown"

    def feasible(self, c):
        return self.query(c) != z3.unsat

    def decide(self, c):
        """Return a python bool for a (possibly symbolic) condition, splitting the proof when both are possible."""
        if c is UNDEF:
            self.safety(False, "use of an uninitialised value")
            raise PathEnd("undef-branch")
        if isinstance(c, int): return bool(c)
        if isinstance(c, z3.BitVecRef): c = (c == 1)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = self.decided.get(c.get_id())
        if k is not None: return k[1]
        nc = z3.simplify(z3.Not(c))
        rt = self.query(c)
        if rt == z3.unsat:
            self.remember(c, nc, False); return False
        rf = self.query(nc)
        if rf == z3.unsat:
            self.remember(c, nc, True); return True
        if rt == z3.unknown or rf == z3.unknown: self.results["notes"].append("unknown-branch")
        if self.fork():
            self.path.append(1); self.add(c); self.remember(c, nc, True); return True
        self.path.append(0); self.add(nc); self.remember(c, nc, False); return False

    def remember(self, c, nc, v):
        """the path condition implies c (or its negation): it only grows, so this stays true"""
        self.decided[c.get_id()] = (c, v); self.decided[nc.get_id()] = (nc, not v)

    def fork(self):
        """True in the child, False in the parent."""
        if self.cfg.get("warm") is not None: return self.cfg["warm"]
        if os.environ.get("IRV_FORKS"): open(os.environ["IRV_FORKS"], "a").write(" > ".join(self.dem.get(f.fn.name, f.fn.name)[:90] for f in self.frames[-4:]) + "\n")
        sem = self.cfg.get("sem")
        tok = sem.acquire(block=False) if sem else False
        with self.cfg["count"].get_lock():
            self.cfg["count"].value += 1
            if self.cfg["count"].value > self.cfg.get("max_paths", 20000): raise PathEnd("path-limit")
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            self.children = []
            self.has_tok = bool(tok)
            self.results = dict(checks=[], covers=[], end=None, funcs=set(), notes=[], insts=0, unsupported=None, solver_s=0.0, queries=0)
            return True
        if tok:
            self.children.append(pid)
        else:
            os.waitpid(pid, 0)
        return False

    def concretize(self, v, what="value", limit=64):
        if isinstance(v, int): return v
        v = simp(v)
        if isinstance(v, int): return v
        if v is UNDEF: raise Unsupported("concretize undef")
        for _ in range(limit):
            r = self.query(z3.BoolVal(True))
            if r != z3.sat:
                # try through the decide machinery with a model from fallback
                if self.last_model is None: raise Unsupported("concretize %s: no model" % what)
            c = self.last_model.eval(v, model_completion=True).as_long()
            if self.decide(v == c): return c
        raise Unsupported("concretize %s: too many values" % what)

    # ------------------------------------------------------------ obligations
    def label_of(self, p):
        return self.cstring(p)
    def check(self, cond, label, kind="property"):
        t = time.time()
        if cond is UNDEF: cond = self.fresh(1, "undef")
        if isinstance(cond, int): c = z3.BoolVal(bool(cond))
        else: c = tob(cond)
        r = self.query(z3.Not(c))
        st = "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown"
        rec = dict(label=label, status=st, kind=kind, t=round(time.time() - t, 4))
        if st == "failed":
            rec["cex"] = self.counterexample(z3.Not(c))
            rec["where"] = self.where()
            rec["path"] = "".join(map(str, self.path))
        if st == "unknown": rec["where"] = self.where()
        self.results["checks"].append(rec)
        if st != "proved":
            if self.query(c) == z3.unsat: raise PathEnd("check-failed-always")
            self.add(c)
        return st == "proved"
    def safety(self, cond, label):
        if isinstance(cond, int) and cond: return
        self.check(cond, "safety: " + label, kind="safety")
        if isinstance(cond, int) and not cond: raise PathEnd("safety")

    def where(self):
        return [self.dem.get(f.fn.name, f.fn.name)[:200] for f in self.frames[-8:]]

    def counterexample(self, neg):
        if self.abstract: return dict(unreplayable="the contract abstracts the state")
        # prefer small strings and small values, to make the replay cheap
        m = None
        base = [neg]
        soft = []
        for inp in self.inputs:
            if inp["k"] == "str" and is_sym(inp["len"]):
                soft.append([z3.ULE(inp["len"], 4), z3.ULE(inp["len"], 16), z3.ULE(inp["len"], 64), z3.ULE(inp["len"], 4096)])
            if inp["k"] == "len" and is_sym(inp["v"]):
                soft.append([z3.ULE(inp["v"], 3), z3.ULE(inp["v"], 8), z3.ULE(inp["v"], 64), z3.ULE(inp["v"], 4096)])
        r = self.query(z3.And(*base))
        m = self.last_model
        for alts in soft:
            for a in alts:
                if self.query(z3.And(*(base + [a]))) == z3.sat:
                    m = self.last_model or m; base.append(a); break
        if m is None: return None
        def ev(v):
            if isinstance(v, int): return v
            if v is UNDEF: return 0
            e = m.eval(v, model_completion=True)
            if z3.is_bool(e): return 1 if z3.is_true(e) else 0
            try: return e.as_long()
            except Exception:
                try: return str(e.as_decimal(17))
                except Exception: return str(e)
        streams = {}
        maps = {}
        for inp in self.inputs:
            s = inp["s"]
            if inp["k"] in ("bits", "len"):
                streams.setdefault(s, []).append(ev(inp["v"]))
            elif inp["k"] == "str":
                n = ev(inp["len"])
                if n > 1 << 20: return dict(unreplayable="string of length %d" % n)
                buf = inp["arr"]
                streams.setdefault(s, []).append([ev(z3.Select(buf, z3.BitVecVal(i, 64))) for i in range(n)])
            elif inp["k"] == "map":
                maps[inp["id"]] = []
            elif inp["k"] == "entry":
                if ev(inp["present"]): maps.setdefault(inp["map"], []).append(inp["stream"])
        return dict(streams=streams, maps={str(k): v for k, v in maps.items()})

    # ------------------------------------------------------------ memory
    def new(self, size, name, kind, fill="undef"):
        o = Obj(self.nobj, size, name, kind, fill); self.byid[self.nobj] = o; self.nobj += 1
        return o
    def new_buf(self, ln, name="buf", arr=None, data=None):
        o = Buf(self.nobj, name, ln, arr, data); self.byid[self.nobj] = o; self.nobj += 1
        return o

    def addr(self, p):
        base = 0 if p.obj is None else (p.obj.id << 36)
        return self.bin("add", 64, base, p.off)
    def from_addr(self, v):
        if isinstance(v, Ptr): return v
        if v is UNDEF: return UNDEF
        if isinstance(v, int):
            o = v >> 36
            if o == 0: return Ptr(None, v)
            ob = self.byid.get(o)
            if ob is None: return Ptr(None, v)
            return Ptr(ob, v - (o << 36))
        v2 = simp(v)
        if isinstance(v2, int): return self.from_addr(v2)
        # symbolic: base + offset where base is a known object
        b = simp(z3.Extract(63, 36, v2))
        if isinstance(b, int) and b in self.byid:
            return Ptr(self.byid[b], simp(v2 - (b << 36)))
        raise Unsupported("inttoptr of a symbolic integer")

    def note_write(self, obj, off):
        for ctx in self.wctx:
            if obj.id < ctx["first"] and not self.in_ghost:
                if (obj.id in ctx["objs"]) or ((obj.id, off) in ctx["locs"]): continue
                ctx["viol"].add((obj.id, off if isinstance(off, int) else -1))

    def check_access(self, p, n, what):
        o = p.obj
        if o is None:
            self.safety(0, "null pointer %s" % what)
        if not o.alive:
            self.safety(0, "%s of freed memory (%s)" % (what, o.name))
        if isinstance(o, Buf):
            return
        if o.size is None: return
        if isinstance(p.off, int):
            off = sgn(p.off, 64)
            if isinstance(o.size, int):
                if not (0 <= off and off + n <= o.size):
                    self.safety(0, "out of bounds %s of %s (offset %d, size %d, object size %d)" % (what, o.name, off, n, o.size))

    def buf_get(self, b, i):
        if isinstance(i, int):
            v = b.bytes.get(i)
            if v is not None: return v
            if b.arr is not None: return self.select(b.arr, z3.BitVecVal(i, 64))
            if isinstance(b.len, int) and i == b.len: return 0
            return UNDEF
        i = simp(i)
        if isinstance(i, int): return self.buf_get(b, i)
        self.buf_flush(b)
        return self.select(b.arr, i)
    def select(self, arr, i):
        v = simp(z3.Select(arr, i))
        self.reads.setdefault(arr.get_id(), {})[i.get_id()] = i
        self.keep.append((arr, i))
        if self.facts: self.instantiate(arr, i); self.instantiate_in(v, 0)
        return v
    def instantiate_in(self, v, depth):
        """uses of arrays with known facts inside a term"""
        if depth > 12 or not z3.is_app(v) or v.num_args() == 0: return
        if z3.is_select(v): self.instantiate(v.arg(0), v.arg(1))
        for c in v.children(): self.instantiate_in(c, depth + 1)
    def instantiate(self, arr, i):
        """facts of the form "for every index": instances for the indices that are read (never forgetting one can make a
        proof fail, never succeed)"""
        fs = self.facts.get(arr.get_id())
        if not fs:
            if z3.is_store(arr):  # what was there before the writes
                base = arr
                while z3.is_store(base): base = base.arg(0)
                if z3.is_app(base): self.instantiate(base, i)
                else:
                    k = (base.get_id(), i.get_id(), -1)
                    if k not in self.fact_done:
                        self.fact_done[k] = (base, i); self.instantiate_in(simp(z3.Select(base, i)), 0)
            return
        for n, f in enumerate(fs[1]):
            k = (arr.get_id(), i.get_id(), n)
            if k in self.fact_done: continue
            self.fact_done[k] = i
            self.add(f(i))
    def know(self, arr, f):
        self.facts.setdefault(arr.get_id(), (arr, []))[1].append(f)
    def buf_flush(self, b):
        if b.arr is None:
            # constant contents: default zero (covers the terminator)
            b.arr = z3.K(BV64S, z3.BitVecVal(0, 8))
        for k in sorted(b.bytes):
            v = b.bytes[k]
            if v is UNDEF: v = self.fresh(8, "undefbyte")
            b.arr = z3.Store(b.arr, z3.BitVecVal(k, 64), bv(v, 8))
        b.bytes = {}
    def buf_set(self, b, i, v):
        if not isinstance(i, int): i = simp(i)
        if isinstance(i, int):
            b.bytes[i] = v; return
        self.buf_flush(b)
        if v is UNDEF: v = self.fresh(8, "undefbyte")
        b.arr = z3.Store(b.arr, i, bv(v, 8))

    def load(self, p, t):
        if p is UNDEF: self.safety(0, "load through an uninitialised pointer")
        if not isinstance(p, Ptr): p = self.from_addr(p)
        n = self.m.size(t)
        self.check_access(p, n, "read")
        k = t.k
        if k in ("a", "s", "n", "v"):
            rt = self.m.resolve(t)
            if rt.k == "a":
                es = self.m.size(rt.el)
                return [self.load(Ptr(p.obj, self.bin("add", 64, p.off, i * es)), rt.el) for i in range(rt.n)]
            offs = self.m.offsets(rt)
            return [self.load(Ptr(p.obj, self.bin("add", 64, p.off, offs[i])), e) for i, e in enumerate(rt.el)]
        o = p.obj; off = p.off
        if isinstance(o, Buf):
            # one byte past the end is the terminator of a string buffer
            idx_hi = self.bin("add", 64, off, n)
            lim = self.bin("add", 64, o.len, 1)
            self.safety(self.cmp("ule", 64, idx_hi, lim), "read past the end of %s" % o.name)
            bs = []
            for j in range(n):
                i = self.bin("add", 64, off, j)
                v = self.buf_get(o, i)
                if o.model == "str":
                    e = self.cmp("eq", 64, i, o.len)
                    if isinstance(e, int):
                        if e: v = 0
                    else:
                        v = simp(z3.If(e, z3.BitVecVal(0, 8), bv(v if v is not UNDEF else 0, 8)))
                bs.append(v)
            return self.conv(self.join(bs), t, n)
        if not isinstance(off, int):
            off = simp(off)
        if not isinstance(off, int):
            return self.load_symoff(o, off, t, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.conv(c[1], t, n)
        return self.conv(self.load_bytes(o, off, n), t, n)

    def load_symoff(self, o, off, t, n):
        if o.size is None or not isinstance(o.size, int) or o.size > 1 << 16: raise Unsupported("symbolic offset into %s" % o.name)
        self.safety(tob(self.cmp("ule", 64, off, o.size - n)), "out of bounds read of %s" % o.name)
        if n > 1:
            al = z3.URem(off, z3.BitVecVal(n, 64)) == 0
            if self.query(z3.Not(al)) != z3.unsat:
                return self.load(Ptr(o, self.concretize(off, "offset")), t)
        vals = [(i, self.load(Ptr(o, i), t)) for i in range(0, o.size - n + 1, n)]
        if any(isinstance(v, Ptr) or v is UNDEF or t.k != "i" for _, v in vals):
            return self.load(Ptr(o, self.concretize(off, "offset")), t)
        if o.const and len(vals) > 16 and all(isinstance(v, int) for _, v in vals):
            key = (n, "tab")
            if o.arrcache is None: o.arrcache = {}
            a = o.arrcache.get(key)
            # a decision tree over the index bits
            idx = simp(z3.LShR(off, (n - 1).bit_length())) if n > 1 else off
            def tree(lo, hi, bit):
                if lo >= len(vals): return z3.BitVecVal(vals[-1][1], t.n)
                if hi - lo == 1: return z3.BitVecVal(vals[lo][1], t.n)
                mid = (lo + hi) // 2
                b = z3.Extract(bit, bit, idx) == 1
                return z3.If(b, tree(mid, hi, bit - 1), tree(lo, mid, bit - 1))
            k = (len(vals) - 1).bit_length()
            return simp(tree(0, 1 << k, k - 1))
        r = bv(vals[-1][1], t.n)
        for i, v in reversed(vals[:-1]):
            r = z3.If(off == i, bv(v, t.n), r)
        return simp(r)

    def join(self, bs):
        """little-endian bytes -> value (int or z3) of 8*len bits"""
        if all(isinstance(b, int) for b in bs):
            v = 0
            for j, b in enumerate(bs): v |= b << (8 * j)
            return v
        if len(bs) == 1: return bs[0]
        if all(b is UNDEF for b in bs): return UNDEF
        bs = [self.fresh(8, "undefbyte") if b is UNDEF else b for b in bs]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def byte_of(self, v, n, j):
        """byte j of an n-byte stored value"""
        if v is UNDEF: return UNDEF
        if isinstance(v, Ptr): v = self.addr(v)
        if isinstance(v, float): v = struct.unpack("<Q" if n == 8 else "<I", struct.pack("<d" if n == 8 else "<f", v))[0]
        if isinstance(v, int): return (v >> (8 * j)) & 0xff
        if z3.is_bool(v): v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if isinstance(v, z3.BitVecRef):
            w = v.size()
            if w < 8 * n: v = z3.ZeroExt(8 * n - w, v)
            return simp(z3.Extract(8 * j + 7, 8 * j, v))
        raise Unsupported("byte of %r" % (v,))

    def load_bytes(self, o, off, n):
        bs = []
        for j in range(n):
            a = off + j; hit = None
            for back in range(0, 16):
                c = o.cells.get(a - back)
                if c is not None:
                    if c[0] > back: hit = (c, back)
                    break
            if hit: bs.append(self.byte_of(hit[0][1], hit[0][0], hit[1])); continue
            f = o.fill
            if f == "zero": bs.append(0)
            elif f == "sym":
                bs = None; break
            else: bs.append(UNDEF)
        if bs is None:
            # lazily symbolic: if nothing overlaps, make one symbol for the whole access
            overl = any((a in o.cells) for a in range(off - 15, off + n) if a in o.cells and a + o.cells[a][0] > off)
            if not overl:
                v = self.fresh(8 * n, "mem"); o.cells[off] = (n, v); return v
            for j in range(n):
                a = off + j; hit = False
                for back in range(0, 16):
                    c = o.cells.get(a - back)
                    if c is not None:
                        hit = c[0] > back; break
                if not hit: o.cells[a] = (1, self.fresh(8, "mem"))
            return self.load_bytes(o, off, n)
        return self.join(bs)

    def conv(self, v, t, n):
        """value as loaded -> value of type t"""
        k = t.k
        if v is UNDEF: return UNDEF
        if k == "i":
            if isinstance(v, Ptr): v = self.addr(v)
            if isinstance(v, float):
                v = struct.unpack("<Q" if n == 8 else "<I", struct.pack("<d" if n == 8 else "<f", v))[0]
            if isinstance(v, int): return v & ((1 << t.n) - 1)
            if z3.is_bool(v):
                if t.n == 1: return v
                return z3.If(v, z3.BitVecVal(1, t.n), z3.BitVecVal(0, t.n))
            if isinstance(v, z3.BitVecRef):
                w = v.size()
                if w == t.n: return v
                if w > t.n:
                    e = simp(z3.Extract(t.n - 1, 0, v))
                    return e if t.n > 1 else (e if isinstance(e, int) else e == 1)
                return simp(z3.ZeroExt(t.n - w, v))
            raise Unsupported("load int from %r" % (v,))
        if k == "ptr":
            return v if isinstance(v, Ptr) else self.from_addr(v)
        if k == "f":
            if isinstance(v, float) or (is_sym(v) and not isinstance(v, z3.BitVecRef)): return v
            if isinstance(v, int):
                if t.n == 64: return struct.unpack("<d", struct.pack("<Q", v))[0]
                if t.n == 32: return struct.unpack("<f", struct.pack("<I", v))[0]
            raise Unsupported("load float from %r" % (v,))
        raise Unsupported("load %r" % t)

    def store(self, p, t, v):
        if p is UNDEF: self.safety(0, "store through an uninitialised pointer")
        if not isinstance(p, Ptr): p = self.from_addr(p)
        n = self.m.size(t)
        self.check_access(p, n, "write")
        k = t.k
        if k in ("a", "s", "n", "v"):
            rt = self.m.resolve(t)
            if rt.k == "a":
                es = self.m.size(rt.el)
                for i in range(rt.n): self.store(Ptr(p.obj, self.bin("add", 64, p.off, i * es)), rt.el, UNDEF if v is UNDEF else v[i])
            else:
                offs = self.m.offsets(rt)
                for i, e in enumerate(rt.el): self.store(Ptr(p.obj, self.bin("add", 64, p.off, offs[i])), e, UNDEF if v is UNDEF else v[i])
            return
        if k == "i" and t.n == 1 and is_sym(v): v = z3.If(tob(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if k == "i" and t.n not in (8, 16, 32, 64) and is_sym(v): v = z3.ZeroExt(8 * n - t.n, v) if isinstance(v, z3.BitVecRef) and v.size() < 8 * n else v
        if k == "f" and t.n == 32 and isinstance(v, float): v = struct.unpack("<f", struct.pack("<f", v))[0]
        self.raw_store(p, n, v)

    def raw_store(self, p, n, v):
        o = p.obj; off = p.off
        if isinstance(o, Buf):
            self.safety(tob(self.cmp("ule", 64, self.bin("add", 64, off, n), self.bin("add", 64, o.len, 1 if o.model == "str" else 0))), "write past the end of %s" % o.name)
            if self.wctx: self.note_write(o, -1)
            for j in range(n): self.buf_set(o, self.bin("add", 64, off, j), self.byte_of(v, n, j))
            return
        if not isinstance(off, int):
            off = simp(off)
            if not isinstance(off, int): off = self.concretize(off, "store offset")
        if o.const: self.safety(0, "write to constant memory")
        if self.wctx: self.note_write(o, off)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            # invalidate overlapping cells, keeping their other bytes
            for a in range(off - 15, off + n):
                c = cells.get(a)
                if c is not None and a + c[0] > off:
                    del cells[a]
                    for j in range(c[0]):
                        if not (off <= a + j < off + n): cells[a + j] = (1, self.byte_of(c[1], c[0], j))
        cells[off] = (n, v)

    def memcpy(self, d, s, n):
        n = simp(n) if is_sym(n) else n
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int):
            if isinstance(d.obj, Buf) or isinstance(s.obj, Buf):
                return self.buf_copy(d, s, n)
            n = self.concretize(n, "memcpy length")
            if n == 0: return
        self.check_access(s, n, "read"); self.check_access(d, n, "write")
        if isinstance(d.obj, Buf) or isinstance(s.obj, Buf) or not isinstance(s.off, int) or not isinstance(d.off, int):
            if n > 4096: raise Unsupported("large memcpy")
            vals = [self.load(Ptr(s.obj, self.bin("add", 64, s.off, j)), I8) for j in range(n)]
            for j, v in enumerate(vals): self.store(Ptr(d.obj, self.bin("add", 64, d.off, j)), I8, v)
            return
        so, do = s.obj, d.obj
        cells = []; a = s.off; end = s.off + n
        if so.fill == "sym":
            # materialise lazily in 8-byte steps
            while a < end:
                c = so.cells.get(a)
                if c is not None: a += c[0]; continue
                if a % 8 == 0 and a + 8 <= end and not any(x in so.cells for x in range(a, a + 8)):
                    self.load_bytes(so, a, 8); a += 8; continue
                self.load_bytes(so, a, 1); a += 1
            a = s.off
        while a < end:
            c = so.cells.get(a)
            if c is not None and a + c[0] <= end:
                cells.append((a - s.off, c[0], c[1])); a += c[0]
            else:
                # partially covered or uninitialised
                if c is None and so.fill != "zero" and not any((a - b) in so.cells and so.cells[a - b][0] > b for b in range(1, 16)):
                    a += 1; continue
                cells.append((a - s.off, 1, self.load_bytes(so, a, 1))); a += 1
        # destination: clear then write
        for x in range(d.off - 15, d.off + n):
            c = do.cells.get(x)
            if c is not None and x + c[0] > d.off:
                del do.cells[x]
                for j in range(c[0]):
                    if not (d.off <= x + j < d.off + n): do.cells[x + j] = (1, self.byte_of(c[1], c[0], j))
        if do.fill != "undef":
            # bytes that stay uninitialised must not read as zero
            pass
        if do.const: self.safety(0, "write to constant memory")
        if self.wctx:
            self.note_write(do, d.off)
        for o2, sz, v in cells: do.cells[d.off + o2] = (sz, v)

    def buf_copy(self, d, s, n):
        """copy of symbolic length between byte buffers, as an SMT array lambda"""
        if not isinstance(d.obj, Buf): raise Unsupported("symbolic-length copy into %s" % d.obj.name)
        if not isinstance(s.obj, Buf): raise Unsupported("symbolic-length copy from %s" % s.obj.name)
        self.buf_flush(d.obj); self.buf_flush(s.obj)
        i = z3.BitVec("i!copy", 64)
        da, sa = d.obj.arr, s.obj.arr
        dof, sof, nn = bv(d.off, 64), bv(s.off, 64), bv(n, 64)
        d.obj.arr = z3.Lambda([i], z3.If(z3.ULT(i - dof, nn), z3.Select(sa, i - dof + sof), z3.Select(da, i)))
        if self.wctx: self.note_write(d.obj, -1)

    def memset(self, d, v, n):
        n = self.concretize(n, "memset length")
        if n == 0: return
        self.check_access(d, n, "write")
        if isinstance(d.obj, Buf) or not isinstance(d.off, int):
            for j in range(n): self.store(Ptr(d.obj, self.bin("add", 64, d.off, j)), I8, v)
            return
        do = d.obj
        for x in range(d.off - 15, d.off + n):
            c = do.cells.get(x)
            if c is not None and x + c[0] > d.off:
                del do.cells[x]
                for j in range(c[0]):
                    if not (d.off <= x + j < d.off + n): do.cells[x + j] = (1, self.byte_of(c[1], c[0], j))
        if self.wctx: self.note_write(do, d.off)
        a = d.off; end = d.off + n
        if isinstance(v, int):
            v8 = v * 0x0101010101010101 & ((1 << 64) - 1)
            while a < end and a % 8: do.cells[a] = (1, v); a += 1
            while a + 8 <= end: do.cells[a] = (8, v8); a += 8
        while a < end: do.cells[a] = (1, v); a += 1

    def cstring(self, p, limit=1 << 16):
        out = bytearray()
        for i in range(limit):
            b = self.load(Ptr(p.obj, p.off + i), I8)
            b = self.concretize(b, "C string byte") if not isinstance(b, int) else b
            if b == 0: return out.decode("utf-8", "surrogateescape")
            out.append(b)
        raise Unsupported("unterminated C string")

    # ------------------------------------------------------------ globals and functions
    def func_ptr(self, name):
        o = self.fobjs.get(name)
        if o is None:
            o = self.new(0, name, "func"); o.fn = name; self.fobjs[name] = o
        return Ptr(o, 0)
    def glob(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs: return self.func_ptr(name)
        o = self.gobjs.get(name)
        if o is None:
            g = self.m.globals.get(name)
            if g is None: raise Unsupported("unknown global " + name)
            ty, init = self.m.global_def(name)
            try: sz = self.m.size(ty)
            except Unsupported: sz = None
            if g["ext"]: sz = None
            o = self.new(sz, name, "global", "zero" if not g["ext"] else "sym")
            self.gobjs[name] = o
            if init is not None: self.init_const(o, 0, ty, init)
            if name == "__libc_single_threaded": o.cells[0] = (1, 0)
            o.const = g["const"] and not g["ext"]
        return Ptr(o, 0)
    def init_const(self, o, off, ty, c):
        k = c[0]
        if k in ("zero", "undef"): return
        if k == "bytes":
            for i, b in enumerate(c[1]): o.cells[off + i] = (1, b)
            return
        if k == "agg":
            rt = self.m.resolve(ty)
            if rt.k == "a":
                es = self.m.size(rt.el)
                for i, (t, v) in enumerate(c[1]): self.init_const(o, off + i * es, t, v)
            else:
                offs = self.m.offsets(rt)
                for i, (t, v) in enumerate(c[1]): self.init_const(o, off + offs[i], t, v)
            return
        v = self.val(None, ty, c)
        o.cells[off] = (self.m.size(ty), v)

    # ------------------------------------------------------------ operands
    def val(self, fr, t, o):
        k = o[0]
        if k == "r":
            try: return fr.regs[o[1]]
            except KeyError: raise Unsupported("register %s undefined" % o[1])
        if k == "k": return o[1]
        if k == "g": return self.glob(o[1])
        if k == "null": return NULL
        if k == "undef":
            rt = t if t.k != "n" else self.m.resolve(t)
            if rt.k == "s": return [self.val(fr, e, o) for e in rt.el]
            if rt.k == "a": return [self.val(fr, rt.el, o) for _ in range(rt.n)]
            return UNDEF
        if k == "zero": return self.zero(o[1])
        if k == "gep": return self.gep(fr, o[1], self.val(fr, PTR, o[2]), o[3])
        if k == "cast": return self.cast(o[1], o[2], self.val(fr, o[2], o[3]), o[4])
        if k == "bin": return self.bin(o[1], o[2].n, self.val(fr, o[2], o[3]), self.val(fr, o[2], o[4]))
        if k == "agg": return [self.val(fr, tt, vv) for tt, vv in o[1]]
        if k == "bytes": return list(o[1])
        raise Unsupported("operand %r" % (o,))
    def zero(self, t):
        rt = t if t.k != "n" else self.m.resolve(t)
        if rt.k == "i": return 0
        if rt.k == "ptr": return NULL
        if rt.k == "f": return 0.0
        if rt.k == "s": return [self.zero(e) for e in rt.el]
        if rt.k == "a": return [self.zero(rt.el) for _ in range(rt.n)]
        raise Unsupported("zero of %r" % t)

    def gep(self, fr, bt, base, idx):
        if base is UNDEF: return UNDEF
        if not isinstance(base, Ptr): base = self.from_addr(base)
        off = base.off; t = bt
        for n, (it, io) in enumerate(idx):
            i = self.val(fr, it, io)
            if i is UNDEF: return UNDEF
            if n == 0:
                scale = self.m.size(t)
            else:
                rt = t if t.k != "n" else self.m.resolve(t)
                if rt.k == "s":
                    off = self.bin("add", 64, off, self.m.offsets(rt)[i]); t = rt.el[i]; continue
                t = rt.el; scale = self.m.size(t)
            if isinstance(i, int):
                i = sgn(i, it.n) if it.n < 64 or i >> 63 else i
                if isinstance(off, int): off = (off + i * scale) & 0xffffffffffffffff
                else: off = self.bin("add", 64, off, (i * scale) & 0xffffffffffffffff)
            else:
                if it.n < 64: i = z3.SignExt(64 - it.n, i)
                off = self.bin("add", 64, off, self.bin("mul", 64, i, scale))
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ arithmetic
    def bin(self, op, n, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj: return self.bin("sub", 64, a.off, b.off)
            if isinstance(a, Ptr): a = self.addr(a)
            if isinstance(b, Ptr): b = self.addr(b)
        if isinstance(a, float) or isinstance(b, float) or (is_sym(a) and a.sort() == z3.RealSort()) or op[0] == "f":
            return self.fbin(op, a, b)
        if isinstance(a, int) and isinstance(b, int):
            mask = (1 << n) - 1
            f = ARITH.get(op)
            if f: return f(a, b) & mask
            if op == "shl": return (a << b) & mask if b < n else 0
            if op == "lshr": return a >> b if b < n else 0
            if op == "ashr": return (sgn(a, n) >> min(b, n - 1)) & mask
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0: self.safety(0, "division by zero")
                if op == "udiv": return a // b
                if op == "urem": return a % b
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == "sdiv" else x - q * y) & mask
        if n == 1:
            a, b = tob(a), tob(b)
            if op == "xor": return simp(z3.Xor(a, b))
            if op == "and": return simp(z3.And(a, b))
            if op == "or": return simp(z3.Or(a, b))
            if op in ("add", "sub"): return simp(z3.Xor(a, b))
            raise Unsupported("i1 " + op)
        # cheap identities keep terms small
        if isinstance(b, int):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
            if b == 1 and op in ("mul", "udiv", "sdiv"): return a
        if isinstance(a, int) and a == 0 and op in ("add", "or", "xor"): return b
        A, B = bv(a, n), bv(b, n)
        f = ARITH.get(op)
        if f: return simp(f(A, B))
        if op == "shl": return simp(A << B)
        if op == "lshr": return simp(z3.LShR(A, B))
        if op == "ashr": return simp(A >> B)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.safety(B != 0, "division by zero")
            if op == "udiv": return simp(z3.UDiv(A, B))
            if op == "urem": return simp(z3.URem(A, B))
            if op == "sdiv": return simp(A / B)
            return simp(z3.SRem(A, B))
        raise Unsupported("bin " + op)

    def fbin(self, op, a, b):
        if isinstance(a, float) and isinstance(b, float):
            try:
                if op == "fadd": return a + b
                if op == "fsub": return a - b
                if op == "fmul": return a * b
                if op == "fdiv":
                    if b == 0.0: return float("nan") if a == 0.0 or a != a else math.copysign(float("inf"), a) * math.copysign(1.0, b)
                    return a / b
                if op == "frem": return math.fmod(a, b)
            except OverflowError:
                return float("inf")
        A = a if is_sym(a) else z3.RealVal(repr(a) if a == a and abs(a) != float("inf") else "0"); B = b if is_sym(b) else z3.RealVal(repr(b))
        if op == "fadd": return A + B
        if op == "fsub": return A - B
        if op == "fmul": return A * B
        if op == "fdiv": return A / B
        raise Unsupported("float " + op)

    CMPI = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b}
    def cmp(self, pred, n, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = self.from_addr(a)
            if not isinstance(b, Ptr): b = self.from_addr(b)
            if a.obj is b.obj:
                return self.cmp(pred, 64, a.off, b.off)
            if pred == "eq": return 0
            if pred == "ne": return 1
            return self.cmp(pred, 64, self.addr(a), self.addr(b))
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s": a, b = sgn(a, n), sgn(b, n)
            if pred == "eq": r = a == b
            elif pred == "ne": r = a != b
            else:
                o = pred[1:]
                r = a < b if o == "lt" else a <= b if o == "le" else a > b if o == "gt" else a >= b
            return 1 if r else 0
        if n == 1:
            a, b = tob(a), tob(b)
            if pred == "eq": return simp(a == b)
            if pred == "ne": return simp(z3.Xor(a, b))
            A, B = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else:
            A, B = bv(a, n), bv(b, n)
        if pred == "eq": r = A == B
        elif pred == "ne": r = A != B
        elif pred == "ult": r = z3.ULT(A, B)
        elif pred == "ule": r = z3.ULE(A, B)
        elif pred == "ugt": r = z3.UGT(A, B)
        elif pred == "uge": r = z3.UGE(A, B)
        elif pred == "slt": r = A < B
        elif pred == "sle": r = A <= B
        elif pred == "sgt": r = A > B
        elif pred == "sge": r = A >= B
        else: raise Unsupported("icmp " + pred)
        return simp(r)

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) and isinstance(b, float):
            un = (a != a) or (b != b)
            if pred == "ord": return int(not un)
            if pred == "uno": return int(un)
            o = pred[1:]
            r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[o]
            if o == "ne": r = (not un) and a != b
            return int((r or un) if pred[0] == "u" else (r and not un))
        A = a if is_sym(a) else z3.RealVal(repr(a)); B = b if is_sym(b) else z3.RealVal(repr(b))
        if pred == "ord": return 1
        if pred == "uno": return 0
        o = pred[1:]
        return simp({"eq": A == B, "ne": A != B, "lt": A < B, "le": A <= B, "gt": A > B, "ge": A >= B}[o])

    def cast(self, op, ft, v, tt):
        if v is UNDEF: return UNDEF
        if op == "bitcast" or op == "addrspacecast":
            if ft.k == tt.k: return v
            return self.conv(v, tt, self.m.size(tt))
        if op == "ptrtoint":
            if isinstance(v, Ptr):
                if tt.n == 64: return self.addr(v)
                return self.cast("trunc", I64, self.addr(v), tt)
            return v
        if op == "inttoptr": return self.from_addr(v)
        if op in ("sitofp", "uitofp"):
            if isinstance(v, int): return float(sgn(v, ft.n) if op == "sitofp" else v)
            return z3.ToReal(z3.BV2Int(v, op == "sitofp"))
        if op in ("fptosi", "fptoui"):
            if isinstance(v, float): return int(v) & ((1 << tt.n) - 1)
            raise Unsupported("symbolic " + op)
        if op == "fpext": return v
        if op == "fptrunc":
            if isinstance(v, float): return struct.unpack("<f", struct.pack("<f", v))[0] if tt.n == 32 else v
            return v
        if isinstance(v, Ptr): v = self.addr(v)
        if isinstance(v, int):
            if op == "zext": return v
            if op == "trunc": return v & ((1 << tt.n) - 1)
            if op == "sext": return sgn(v, ft.n) & ((1 << tt.n) - 1)
        if op == "zext":
            if ft.n == 1: return z3.If(tob(v), z3.BitVecVal(1, tt.n), z3.BitVecVal(0, tt.n))
            return simp(z3.ZeroExt(tt.n - ft.n, v))
        if op == "sext":
            if ft.n == 1: return z3.If(tob(v), z3.BitVecVal((1 << tt.n) - 1, tt.n), z3.BitVecVal(0, tt.n))
            return simp(z3.SignExt(tt.n - ft.n, v))
        if op == "trunc":
            if tt.n == 1:
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)) \
                        and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
                    return v.arg(0)
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(tt.n - 1, 0, v))
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ loops (natural loops of a function)
    def loop_info(self, fn):
        if fn.loops is None:
            blocks = self.m.body(fn)
            succ = {}
            for b, ins in blocks.items():
                t = ins[-1]
                if t[0] == "br": s = [t[2]]
                elif t[0] == "cbr": s = [t[3], t[4]]
                elif t[0] == "switch": s = [t[4]] + [c[1] for c in t[5]]
                elif t[0] == "invoke": s = [t[5], t[6]]
                else: s = []
                succ[b] = s
            order = []; seen = set()
            st = [(fn.entry, iter(succ[fn.entry]))]; seen.add(fn.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(succ[s]))); break
                else:
                    order.append(b); st.pop()
            rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
            pred = {b: [] for b in rpo}
            for b in rpo:
                for s in succ[b]: pred[s].append(b)
            idom = {fn.entry: fn.entry}; ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in pred[b]:
                        if p in idom:
                            if new is None: new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]: x = idom[x]
                                    while num[y] > num[x]: y = idom[y]
                                new = x
                    if idom.get(b) != new: idom[b] = new; ch = True
            def dom(a, b):
                while True:
                    if a == b: return True
                    if b == fn.entry: return False
                    b = idom[b]
            loops = {}
            for b in rpo:
                for s in succ[b]:
                    if dom(s, b):
                        body = loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x); st.extend(pred[x])
            lay = {b: i for i, b in enumerate(blocks)}
            heads = sorted(loops, key=lambda h: lay[h])
            fn.loops = {h: (i, loops[h]) for i, h in enumerate(heads)}
        return fn.loops

    def find_loop_spec(self, fn, idx):
        if not self.loops: return None
        d = self.dem.get(fn.name, fn.name)
        for rx, i, hv, inv, ctx in self.loops:
            if i == idx and rx.search(d): return (hv, inv, ctx, d)
        return None

    def at_loop_head(self, fr, head, idx, body):
        spec = self.find_loop_spec(fr.fn, idx)
        if spec is None: return
        hv, inv, ctx, d = spec
        lc = fr.loopctx.get(head)
        key = "%s#%d" % (d, idx)
        if lc is None:
            self.frames_target = fr
            ok = self.call_spec(inv, [ctx])
            self.check(ok, "loop invariant established: %s loop %d" % (short(d), idx), kind="loop")
            # havoc: automatically inferred allocas, then the spec's havoc function
            first = self.nobj
            wc = dict(first=first, objs=set(), locs=set(), viol=set(), key=key, names={})
            auto = self.autohavoc.get(key, [])
            ahlocs = []
            for nm, off in auto:
                o = fr.regs.get(nm)
                if isinstance(o, Ptr):
                    o.obj.cells = {}; o.obj.fill = "sym"; wc["objs"].add(o.obj.id)
                    for g in [g for g in self.ghost if g[0] == o.obj.id]: del self.ghost[g]
            rec = []
            self.rec_writes = rec
            self.wctx.append(dict(first=1 << 60, objs=set(), locs=set(), viol=set(), rec=True))
            cap = self.wctx[-1]
            self.call_spec(hv, [ctx])
            self.wctx.pop()
            wc["locs"] |= {(a, b) for a, b in cap["viol"] if b != -1}
            wc["objs"] |= {a for a, b in cap["viol"] if b == -1}
            ok = self.call_spec(inv, [ctx])
            ok = tob(ok) if ok is not UNDEF else z3.BoolVal(False)
            if self.query(ok) == z3.unsat: raise PathEnd("loop-invariant-unsat")
            self.add(ok)
            fr.loopctx[head] = wc
            self.wctx.append(wc)
        else:
            if fr.loopctx[head] not in self.wctx:
                # re-entered after leaving (an outer loop iterates): treat as a fresh entry
                del fr.loopctx[head]
                return self.at_loop_head(fr, head, idx, body)
            ok = self.call_spec(inv, [ctx])
            self.check(ok, "loop invariant preserved: %s loop %d" % (short(d), idx), kind="loop")
            bad = []
            for oid, off in lc["viol"]:
                o = self.byid[oid]
                nm = None
                for r, v in fr.regs.items():
                    if isinstance(v, Ptr) and v.obj is o and o.kind == "stack" and v.off == 0 and o.name == r: nm = r; break
                if nm: bad.append(nm)
                elif o.alive: raise Unsupported("loop %s writes %s at %s, which its frame does not allow" % (key, o.name, off))
            if bad:
                self.results.setdefault("autohavoc", []).extend([(key, b) for b in bad])
                raise PathEnd("autohavoc")
            raise PathEnd("loop-cut")

    def call_spec(self, fp, args):
        self.frames_target_stack = getattr(self, "frames_target_stack", [])
        self.frames_target_stack.append(self.frames[-1])
        self.atomic_silent += 1
        r = self.call_ptr(fp, args, None)
        self.atomic_silent -= 1
        self.frames_target_stack.pop()
        return r

    # ------------------------------------------------------------ calls
    def call_ptr(self, fp, args, rt):
        if isinstance(fp, str): name = fp
        else:
            if fp is UNDEF: self.safety(0, "call through an uninitialised pointer")
            if fp.obj is None: self.safety(0, "call through a null function pointer")
            if fp.obj.kind != "func": raise Unsupported("call through %r" % fp)
            name = fp.obj.fn
        return self.call(name, args, rt)

    def call(self, name, args, rt):
        name = self.m.aliases.get(name, name)
        h = self.model_cache.get(name)
        if h is None:
            h = self.models.lookup(self, name, self.dem.get(name, name)) or 0
            self.model_cache[name] = h
        if self.replace:
            rp = self._repl_cache.get(name)
            if rp is None:
                d = self.dem.get(name, name); rp = 0
                for rx, fp in self.replace:
                    if rx.search(d): rp = fp; break
                self._repl_cache[name] = rp
            if rp and not any(f.fn.name == rp for f in self.frames[-3:]):
                self.results["funcs"].add("contract:" + name)
                return self.call(rp, args, rt)
        if h:
            r = h(self, args, rt, name)
            if r is not NOT_HANDLED: return r
        fn = self.m.funcs.get(name)
        if fn is None or not fn.defined:
            raise Unsupported("external function %s" % self.dem.get(name, name))
        return self.run(fn, args)

    def run(self, fn, args):
        blocks = self.m.body(fn)
        fr = Frame(fn)
        regs = fr.regs
        for (t, nm, a), v in zip(fn.params, args): regs[nm] = v
        fr.varargs = args[len(fn.params):] if fn.vararg else None
        self.results["funcs"].add(fn.name)
        self.frames.append(fr)
        if len(self.frames) > 400: raise Unsupported("recursion too deep in " + self.dem.get(fn.name, fn.name))
        loops = self.loop_info(fn)
        b = fn.entry; prev = None
        depth = len(self.wctx)
        allocas = []
        n = 0
        try:
            while True:
                if loops and b in loops:
                    self.at_loop_head(fr, b, loops[b][0], loops[b][1])
                    cnt = fr.loopctx.get(("n", b), 0) + 1
                    fr.loopctx[("n", b)] = cnt
                    if cnt > self.cfg.get("unroll", 300):
                        raise Unsupported("loop in %s needs an invariant (unrolled %d times)" % (self.dem.get(fn.name, fn.name)[:200], cnt))
                if prev is not None and loops and self.wctx:
                    # leaving a cut loop drops its frame check
                    while self.wctx and len(self.wctx) > depth:
                        top = self.wctx[-1]
                        hd = next((h for h, c in fr.loopctx.items() if c is top), None)
                        if hd is not None and b not in loops[hd][1]: self.wctx.pop()
                        else: break
                ins_list = blocks[b]
                nxt = None
                n += len(ins_list)
                if n > 2000:
                    self.results["insts"] += n; n = 0
                    if time.time() > self.deadline: raise PathEnd("timeout")
                phis = None
                for ins in ins_list:
                    op = ins[0]
                    if op == "load":
                        if ins[4]: self.on_atomic(self.val(fr, PTR, ins[3]), "load", None, None)
                        elif self.shared: self.on_plain(self.val(fr, PTR, ins[3]))
                        regs[ins[1]] = self.load(self.val(fr, PTR, ins[3]), ins[2])
                    elif op == "store":
                        a = self.val(fr, PTR, ins[4]); v = self.val(fr, ins[2], ins[3])
                        if ins[5]:
                            self.on_atomic(a, "prestore", None, None)
                            old = self.load(a, ins[2]) if self.shared else None
                            self.store(a, ins[2], v); self.on_atomic(a, "store", old, v)
                        else:
                            if self.shared: self.on_plain(a)
                            self.store(a, ins[2], v)
                    elif op == "gep":
                        regs[ins[1]] = self.gep(fr, ins[2], self.val(fr, PTR, ins[3]), ins[4])
                    elif op == "call" or op == "invoke":
                        rt = ins[2]; co = ins[3]
                        av = []
                        for t, o, at in ins[4]:
                            v = self.val(fr, t, o)
                            if "byval" in at:
                                sz = self.m.size(at["byval"]); nb = self.new(sz, "byval", "stack"); self.memcpy(Ptr(nb, 0), v, sz); v = Ptr(nb, 0)
                            av.append(v)
                        if co[0] == "g": target = co[1]
                        else: target = self.val(fr, PTR, co)
                        nf = len(self.frames)
                        if op == "call":
                            r = self.call_ptr(target, av, rt)
                            if ins[1] is not None: regs[ins[1]] = r
                        else:
                            try:
                                r = self.call_ptr(target, av, rt)
                                if ins[1] is not None: regs[ins[1]] = r
                                nxt = ins[5]
                            except CxxThrow as e:
                                del self.frames[nf:]
                                fr.exc = e; nxt = ins[6]
                            break
                    elif op == "br": nxt = ins[2]; break
                    elif op == "cbr":
                        nxt = ins[3] if self.decide(self.val(fr, I1, ins[2])) else ins[4]; break
                    elif op == "alloca":
                        cnt = 1
                        if ins[3] is not None:
                            cnt = self.concretize(self.val(fr, ins[3][0], ins[3][1]), "alloca count")
                        o = self.new(self.m.size(ins[2]) * cnt, ins[1], "stack"); allocas.append(o)
                        regs[ins[1]] = Ptr(o, 0)
                    elif op == "bin":
                        regs[ins[1]] = self.bin(ins[2], ins[3].n, self.val(fr, ins[3], ins[4]), self.val(fr, ins[3], ins[5]))
                    elif op == "icmp":
                        t = ins[3]
                        regs[ins[1]] = self.cmp(ins[2], t.n if t.k == "i" else 64, self.val(fr, t, ins[4]), self.val(fr, t, ins[5]))
                    elif op == "cast":
                        regs[ins[1]] = self.cast(ins[2], ins[3], self.val(fr, ins[3], ins[4]), ins[5])
                    elif op == "ret":
                        r = None if ins[3] is None else self.val(fr, ins[2], ins[3])
                        for o in allocas: o.alive = False
                        self.results["insts"] += n
                        del self.wctx[depth:]
                        self.frames.pop()
                        return r
                    elif op == "phi":
                        if phis is None: phis = {}
                        regs_new = self.val(fr, ins[2], ins[3][prev])
                        phis[ins[1]] = regs_new
                        # commit when all phis of the block are read
                        regs[ins[1]] = regs_new
                    elif op == "select":
                        c = self.val(fr, I1, ins[2])
                        a = self.val(fr, ins[3], ins[4]); bb = self.val(fr, ins[3], ins[5])
                        if isinstance(c, int): regs[ins[1]] = a if c else bb
                        elif c is not UNDEF and ins[3].k == "i" and not isinstance(a, Ptr) and a is not UNDEF and bb is not UNDEF:
                            if ins[3].n == 1: regs[ins[1]] = simp(z3.If(tob(c), tob(a), tob(bb)))
                            else: regs[ins[1]] = simp(z3.If(tob(c), bv(a, ins[3].n), bv(bb, ins[3].n)))
                        else: regs[ins[1]] = a if self.decide(c) else bb
                    elif op == "extractvalue":
                        v = self.val(fr, ins[2], ins[3])
                        for i in ins[4]: v = v[i] if v is not UNDEF else UNDEF
                        regs[ins[1]] = v
                    elif op == "insertvalue":
                        v = self.val(fr, ins[2], ins[3])
                        v = self.copyagg(v); e = self.val(fr, ins[4], ins[5]); w = v
                        for i in ins[6][:-1]: w = w[i]
                        w[ins[6][-1]] = e; regs[ins[1]] = v
                    elif op == "switch":
                        v = self.val(fr, ins[2], ins[3]); nxt = None
                        if isinstance(v, int):
                            for cv, lb in ins[5]:
                                if cv == v: nxt = lb; break
                            else: nxt = ins[4]
                        else:
                            groups = {}
                            for cv, lb in ins[5]: groups.setdefault(lb, []).append(cv)
                            for lb, cvs in groups.items():
                                if lb == ins[4]: continue
                                if self.decide(z3.Or(*[v == cv for cv in cvs]) if v is not UNDEF else UNDEF): nxt = lb; break
                            else: nxt = ins[4]
                        break
                    elif op == "landingpad":
                        regs[ins[1]] = self.landingpad(fr, ins)
                        if regs[ins[1]] is None: raise fr.exc
                    elif op == "resume":
                        v = self.val(fr, ins[3], ins[2])
                        raise fr.exc if fr.exc is not None else Unsupported("resume without exception")
                    elif op == "unreachable":
                        raise PathEnd("unreachable")
                    elif op == "nop": pass
                    elif op == "freeze":
                        v = self.val(fr, ins[2], ins[3]); regs[ins[1]] = self.fresh(ins[2].n) if v is UNDEF else v
                    elif op == "fcmp":
                        regs[ins[1]] = self.fcmp(ins[2], self.val(fr, ins[3], ins[4]), self.val(fr, ins[3], ins[5]))
                    elif op == "fneg":
                        v = self.val(fr, ins[2], ins[3]); regs[ins[1]] = v if v is UNDEF else -v
                    elif op == "cmpxchg":
                        a = self.val(fr, PTR, ins[3]); c = self.val(fr, ins[2], ins[4]); nv = self.val(fr, ins[2], ins[5])
                        self.on_atomic(a, "load", None, None)
                        old = self.load(a, ins[2])
                        eq = self.cmp("eq", ins[2].n if ins[2].k == "i" else 64, old, c)
                        if self.decide(eq):
                            self.store(a, ins[2], nv); self.on_atomic(a, "store", old, nv); regs[ins[1]] = [old, 1]
                        else: regs[ins[1]] = [old, 0]
                    elif op == "atomicrmw":
                        a = self.val(fr, PTR, ins[4]); t = ins[2]
                        self.on_atomic(a, "load", None, None)
                        old = self.load(a, t); v = self.val(fr, t, ins[5]); o = ins[3]
                        if o == "xchg": nv = v
                        elif o in ("add", "sub", "and", "or", "xor"): nv = self.bin(o, t.n, old, v)
                        else: raise Unsupported("atomicrmw " + o)
                        self.store(a, t, nv); self.on_atomic(a, "store", old, nv); regs[ins[1]] = old
                    elif op == "asm": raise Unsupported("inline asm")
                    else: raise Unsupported("instruction %s" % (ins[2] if len(ins) > 2 else op,))
                prev = b; b = nxt
                if b is None: raise Unsupported("fell off block")
        except CxxThrow:
            for o in allocas: o.alive = False
            del self.wctx[depth:]
            self.results["insts"] += n
            raise

    def copyagg(self, v):
        if isinstance(v, list): return [self.copyagg(x) for x in v]
        return v

    # ------------------------------------------------------------ shared (atomic) locations
    def on_plain(self, p):
        if not self.atomic_silent and p.obj is not None and (p.obj.id, p.off) in self.shared:
            self.safety(0, "data race: a location shared by threads is accessed without synchronization")
    def on_atomic(self, p, what, old, new):
        if not self.shared or self.atomic_silent: return
        s = self.shared.get((p.obj.id, p.off))
        if s is None: return
        rely, guar, ctx = s
        self.atomic_silent += 1
        if what in ("load", "prestore"): self.call_ptr(rely, [ctx], None)
        elif what == "store":
            self.events.append(("atomic-store", p, old, new))
            r = self.call_ptr(guar, [ctx, old, new], None)
        self.atomic_silent -= 1

    # ------------------------------------------------------------ exceptions
    STDBASES = {
        "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
        "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt12length_error": ["_ZTISt11logic_error"],
        "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
        "_ZTISt8bad_cast": ["_ZTISt9exception"], "_ZTISt17bad_function_call": ["_ZTISt9exception"], "_ZTISt12system_error": ["_ZTISt13runtime_error"],
    }
    def bases(self, ti):
        if ti in self.STDBASES: return [(b, 0) for b in self.STDBASES[ti]]
        g = self.m.globals.get(ti)
        if g is None or g["ext"]: return []
        ty, init = self.m.global_def(ti)
        if init is None or init[0] != "agg": return []
        els = init[1]
        if len(els) == 3: return [(els[2][1][1], 0)]
        if len(els) > 3:
            out = []
            for i in range(4, len(els), 2): out.append((els[i][1][1], sgn(els[i+1][1][1], 64) >> 8))
            return out
        return []
    def ti_match(self, t, c, off=0):
        if t == c: return off
        for b, o in self.bases(t):
            r = self.ti_match(b, c, off + o)
            if r is not None: return r
        return None
    def tyid(self, ti):
        if ti not in self.tyids: self.tyids[ti] = len(self.tyids) + 1
        return self.tyids[ti]
    def landingpad(self, fr, ins):
        e = fr.exc
        for kind, c in ins[3]:
            if kind == "catch":
                if c[0] == "null": return [e.ptr, 0x7fff]
                off = self.ti_match(e.tinfo, c[1])
                if off is not None:
                    return [Ptr(e.ptr.obj, e.ptr.off + off), self.tyid(c[1])]
            elif kind == "filter":
                return [e.ptr, 0xffffffff]
        if ins[2]: return [e.ptr, 0]
        return None

    # ------------------------------------------------------------ harness entry
    def main(self, name):
        end = "ok"
        try:
            self.call(name, [], None)
        except PathEnd as e: end = e.why
        except CxxThrow as e:
            end = "uncaught"
            self.results["unsupported"] = "uncaught exception %s" % e.tinfo
        except Unsupported as e:
            end = "unsupported"; self.results["unsupported"] = str(e) + "  in  " + " > ".join(self.where()[-4:])
        except RecursionError:
            end = "unsupported"; self.results["unsupported"] = "recursion"
        except (z3.Z3Exception,) as e:
            end = "unsupported"; self.results["unsupported"] = "z3: %s %s in %s" % (e, __import__("traceback").format_exc()[-500:], " > ".join(self.where()[-4:]))
        except Exception as e:
            import traceback
            end = "unsupported"; self.results["unsupported"] = "internal: %r %s in %s" % (e, traceback.format_exc()[-600:], " > ".join(self.where()[-4:]))
        self.results["end"] = end
        self.finish()

    def finish(self):
        r = self.results
        if self.cfg.get("warm") is not None:
            with open(os.path.join(self.cfg["dir"], "warm%d" % self.cfg["warm"]), "w") as f:
                f.write("\n".join(n for n, fn in self.m.funcs.items() if fn.blocks is not None) + "\n\n" + "\n".join(self.model_cache))
            os._exit(0)
        r["funcs"] = sorted(r["funcs"])
        with open(os.path.join(self.cfg["dir"], "p%d.json" % os.getpid()), "a") as f:
            f.write(json.dumps(r) + "\n")
        if getattr(self, "has_tok", False): self.cfg["sem"].release()
        for pid in self.children:
            try: os.waitpid(pid, 0)
            except ChildProcessError: pass
        os._exit(0)

def short(d):
    """a readable short name of a demangled function"""
    d = re.sub(r'\(anonymous namespace\)', "anon", d)
    out = []; depth = 0
    for c in d:
        if c == "<": depth += 1; continue
        if c == ">":
            depth = max(0, depth - 1); continue
        if depth == 0: out.append(c)
    d = "".join(out)
    d = d.split("(")[0].strip()
    return d.split(" ")[-1]
