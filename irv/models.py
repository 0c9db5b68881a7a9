"""Trusted contracts of what the real code calls but this tool does not look into:
the specification intrinsics, libc, the C++ runtime, std::string, mutexes and condition variables."""
import re
import z3
import ll
from ll import Unsupported, I1, I8, I16, I32, I64, PTR
import execu
from execu import Ptr, NULL, UNDEF, PathEnd, CxxThrow, NOT_HANDLED, Buf, simp, tob, bv, is_sym, sgn

RUNTIME = {}      # exact mangled name -> handler
BYNAME = {}       # stripped qualified demangled name -> handler
TRUSTED = {}      # handler -> description (reported as trusted contracts when used)

def rt(*names):
    def d(f):
        for n in names: RUNTIME[n] = f
        return f
    return d
def cxx(*names):
    def d(f):
        for n in names: BYNAME[n] = f
        return f
    return d

OPNAMES = ["operator<=>", "operator->*", "operator<<=", "operator>>=", "operator<<", "operator>>", "operator<=", "operator>=", "operator->", "operator<", "operator>", "operator()"]
def strip(d):
    """demangled name -> (qualified name without template arguments, argument text without template arguments)"""
    d = d.replace("(anonymous namespace)", "anon")
    out = []; depth = 0; i = 0; n = len(d)
    while i < n:
        if depth == 0 or True:
            if d.startswith("operator", i) and (i == 0 or not (d[i-1].isalnum() or d[i-1] == "_")):
                for o in OPNAMES:
                    if d.startswith(o, i):
                        # operator< followed by template args: "operator<<" ambiguity resolved by the longest match first
                        if depth == 0: out.append(o.replace("()", "\x01"))
                        i += len(o); break
                else:
                    if depth == 0: out.append("operator")
                    i += 8
                continue
        c = d[i]
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    s = "".join(out)
    # split at the first top-level "("
    j = s.find("(")
    if j < 0: return s.replace("\x01", "()"), ""
    q, a = s[:j], s[j:]
    q = q.strip()
    # drop a return type
    m = re.search(r'(?:^|\s)((?:[\w:~{}\'\x01$]|operator (?:new|delete|bool)(?:\[\])?|operator[^\w\s]*)+(?:\[abi:\w+\])?)$', q)
    if " " in q:
        k = q.rfind("operator ")
        if k >= 0:
            b = q.rfind(" ", 0, k); q = q[b+1:]
        else:
            q = q[q.rfind(" ")+1:]
    q = re.sub(r'\[abi:\w+\]', '', q)
    return q.replace("\x01", "()"), a.replace("\x01", "()")

def lookup(ex, name, dem):
    h = RUNTIME.get(name)
    if h: return h
    if name.startswith("llvm."):
        for k, f in LLVM:
            if name.startswith(k): return f
    q, a = strip(dem)
    h = BYNAME.get(q)
    if h is None:
        for rx, f in BYRX:
            if rx.match(q): h = f; break
    if h is not None:
        def g(ex, args, rt, nm, h=h, q=q, a=a):
            r = h(ex, args, rt, nm, q, a)
            if r is not NOT_HANDLED: ex.results["funcs"].add("model:" + q)
            return r
        return g
    return None
BYRX = []
LLVM = []
def llvm(prefix):
    def d(f): LLVM.append((prefix, f)); return f
    return d

# ------------------------------------------------------------------ specification intrinsics
@rt("irv_symbolic")
def _(ex, a, rt_, n): return 1

def stream(ex): return ex.streams[-1]

@rt("irv_any_bits")
def _(ex, a, rt_, n):
    bits = a[0]
    v = ex.fresh(bits, "any")
    if bits == 1: v = z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    elif bits < 64: v = z3.ZeroExt(64 - bits, v)
    ex.inputs.append(dict(k="bits", s=stream(ex), v=v))
    return v

@rt("irv_any_len")
def _(ex, a, rt_, n):
    v = ex.fresh(64, "len"); ex.add(z3.ULE(v, bv(a[0], 64)))
    ex.inputs.append(dict(k="len", s=stream(ex), v=v))
    return v

@rt("irv_ghost_bits")
def _(ex, a, rt_, n):
    # an arbitrary value that is not an input of the real code (a havoc)
    bits = a[0]; v = ex.fresh(bits, "havoc")
    if bits == 1: return z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return z3.ZeroExt(64 - bits, v) if bits < 64 else v

@rt("irv_record_bits")
def _(ex, a, rt_, n):
    ex.inputs.append(dict(k="bits", s=stream(ex), v=a[0])); return None

@rt("irv_assume")
def _(ex, a, rt_, n):
    c = a[0]
    if c is UNDEF: raise PathEnd("assume-undef")
    if isinstance(c, int):
        if not c: raise PathEnd("assume-false")
        return None
    c = tob(c)
    if ex.query(c) == z3.unsat: raise PathEnd("assume-false")
    ex.add(c); return None

@rt("irv_check")
def _(ex, a, rt_, n):
    ex.check(a[0], ex.cstring(a[1])); return None
@rt("irv_check_aux")
def _(ex, a, rt_, n):
    ex.check(a[0], ex.cstring(a[1]), "aux"); return None
@rt("irv_cover")
def _(ex, a, rt_, n):
    ex.results["covers"].append(ex.cstring(a[0])); return None
@rt("irv_fail")
def _(ex, a, rt_, n):
    ex.check(0, ex.cstring(a[0])); raise PathEnd("fail")
@rt("irv_end")
def _(ex, a, rt_, n): raise PathEnd("ok")
@rt("irv_dead")
def _(ex, a, rt_, n): raise PathEnd("assume-false")
@rt("irv_replace")
def _(ex, a, rt_, n):
    ex.replace.append((re.compile(ex.cstring(a[0])), a[1].obj.fn)); ex._repl_cache = {}; return None
@rt("irv_unreplace")
def _(ex, a, rt_, n):
    ex.replace = []; ex._repl_cache = {}; return None
@rt("irv_loop")
def _(ex, a, rt_, n):
    ex.loops.append((re.compile(ex.cstring(a[0])), sgn(a[1], 32), a[2], a[3], a[4])); return None
@rt("irv_local")
def _(ex, a, rt_, n):
    nm = ex.cstring(a[0])
    fr = ex.frames_target_stack[-1]
    for one in nm.split("|"):
        for cand in (one, one + ".addr"):
            v = fr.regs.get(cand)
            if isinstance(v, Ptr): return v
        if "*" in one:  # __begin*: the iterator of a range-based loop
            for r, v in fr.regs.items():
                if isinstance(v, Ptr) and isinstance(r, str) and re.fullmatch(one.replace("*", r"\d*"), r): return v
    raise Unsupported("irv_local: no local %r in %s" % (nm, ex.dem.get(fr.fn.name)))
@rt("irv_local_n")
def _(ex, a, rt_, n):
    """the k-th local of the cut frame whose alloca has the given size and is not compiler-made"""
    size, k = a[0], sgn(a[1], 32)
    fr = ex.frames_target_stack[-1]
    c = 0
    for r, v in fr.regs.items():
        if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == "stack" and v.obj.name == r and v.obj.size == size and not r.endswith(".addr") and "." not in r and not r.startswith("_"):
            if c == k: return v
            c += 1
    raise Unsupported("irv_local_n")
@rt("irv_monitor")
def _(ex, a, rt_, n):
    ex.monitors[(a[0].obj.id, a[0].off)] = (a[1], a[2], a[3]); return None
@rt("irv_shared")
def _(ex, a, rt_, n):
    ex.shared[(a[0].obj.id, a[0].off)] = (a[1], a[2], a[3]); return None
@rt("irv_decide")
def _(ex, a, rt_, n): return 1 if ex.decide(a[0]) else 0
@rt("irv_concretize")
def _(ex, a, rt_, n): return ex.concretize(a[0])
@rt("irv_is_concrete")
def _(ex, a, rt_, n): return 1 if isinstance(a[0], int) else 0
@rt("irv_map_begin")
def _(ex, a, rt_, n):
    """a new symbolic map; it is named after the input stream it belongs to"""
    i = len(ex.maps); s = stream(ex)
    k = ex.stream_cnt.get(s, 0); ex.stream_cnt[s] = k + 1
    nm = "%s/%d" % (s, k)
    ex.maps[i] = [nm, 0]; ex.inputs.append(dict(k="map", s=s, id=nm, v=0)); return i
@rt("irv_map_entry")
def _(ex, a, rt_, n):
    """a lazily discovered entry of symbolic map a[0]; a[1]: present"""
    m = ex.maps[a[0]]; i = m[1]; m[1] += 1
    s = "%s.%d" % (m[0], i)
    ex.inputs.append(dict(k="entry", s=stream(ex), map=m[0], stream=s, present=a[1]))
    ex.streams.append(s); return None
@rt("irv_map_entry_end")
def _(ex, a, rt_, n): ex.streams.pop(); return None
@rt("irv_trace")
def _(ex, a, rt_, n):
    ex.events.append(("user", ex.cstring(a[0]))); return None
@rt("irv_trace_count")
def _(ex, a, rt_, n):
    k = ex.cstring(a[0]); p = a[1]
    return sum(1 for e in ex.events if e[0] == k and (p.obj is None or (e[1].obj is p.obj and e[1].off == p.off)))
@rt("irv_trace_reset")
def _(ex, a, rt_, n): ex.events = []; return None
@rt("irv_locked")
def _(ex, a, rt_, n):
    return ex.ghost.get(("lock", a[0].obj.id, a[0].off), 0)
@rt("irv_set_locked")
def _(ex, a, rt_, n):
    ex.ghost[("lock", a[0].obj.id, a[0].off)] = a[1]; return None
@rt("irv_havoc_bytes")
def _(ex, a, rt_, n):
    o = a[0].obj
    for off in range(a[0].off, a[0].off + a[1]):
        c = o.cells.get(off)
        if c is not None: o.cells[off] = (c[0], ex.fresh(8 * c[0], "hv")); ex.note_write(o, off)
    return None
@rt("irv_same")
def _(ex, a, rt_, n):
    """structural equality of two terms without asking the solver"""
    x, y = a
    if isinstance(x, int) and isinstance(y, int): return int(x == y)
    if is_sym(x) and is_sym(y): return int(x.eq(y))
    return 0
@rt("irv_abstract")
def _(ex, a, rt_, n):
    """from here on a countermodel is not an input (part of the state is chosen by contract, not built)"""
    if not ex.abstract: ex.abstract = True; ex.results["notes"].append("abstract")
    return None
@rt("irv_debug")
def _(ex, a, rt_, n):
    print("DEBUG", ex.cstring(a[0]), a[1], flush=True); return None
@rt("irv_alive")
def _(ex, a, rt_, n):
    return 1 if (a[0].obj is not None and a[0].obj.alive) else 0
@rt("irv_kill")
def _(ex, a, rt_, n):
    a[0].obj.alive = False; return None
@rt("irv_uf")
def _(ex, a, rt_, n):
    """uninterpreted function application: name, three 64-bit arguments -> 64 bits"""
    f = z3.Function(ex.cstring(a[0]), *( [z3.BitVecSort(64)] * 4))
    return f(bv(a[1], 64), bv(a[2], 64), bv(a[3], 64))

# ------------------------------------------------------------------ llvm intrinsics
@llvm("llvm.memcpy")
def _(ex, a, rt_, n): ex.memcpy(a[0], a[1], a[2])
@llvm("llvm.memmove")
def _(ex, a, rt_, n): ex.memcpy(a[0], a[1], a[2])
@llvm("llvm.memset")
def _(ex, a, rt_, n): ex.memset(a[0], a[1], a[2])
@llvm("llvm.lifetime")
def _(ex, a, rt_, n): return None
@llvm("llvm.dbg")
def _(ex, a, rt_, n): return None
@llvm("llvm.assume")
def _(ex, a, rt_, n): return None
@llvm("llvm.threadlocal.address")
def _(ex, a, rt_, n): return a[0]
@llvm("llvm.trap")
def _(ex, a, rt_, n):
    ex.safety(0, "trap (assertion of the code under test failed)")
@llvm("llvm.eh.typeid.for")
def _(ex, a, rt_, n): return ex.tyid(a[0].obj.name)
@llvm("llvm.expect")
def _(ex, a, rt_, n): return a[0]
@llvm("llvm.umul.with.overflow")
def _(ex, a, rt_, n):
    w = int(n.rsplit(".i", 1)[1])
    if isinstance(a[0], int) and isinstance(a[1], int):
        r = a[0] * a[1]; return [r & ((1 << w) - 1), int(r >> w != 0)]
    x = z3.ZeroExt(w, bv(a[0], w)) * z3.ZeroExt(w, bv(a[1], w))
    return [simp(z3.Extract(w - 1, 0, x)), simp(z3.Extract(2 * w - 1, w, x) != 0)]
@llvm("llvm.uadd.with.overflow")
def _(ex, a, rt_, n):
    w = int(n.rsplit(".i", 1)[1])
    x = z3.ZeroExt(1, bv(a[0], w)) + z3.ZeroExt(1, bv(a[1], w))
    return [simp(z3.Extract(w - 1, 0, x)), simp(z3.Extract(w, w, x) == 1)]
@llvm("llvm.umax")
def _(ex, a, rt_, n):
    w = int(n.rsplit(".i", 1)[1]); return a[0] if ex.decide(ex.cmp("uge", w, a[0], a[1])) else a[1]
@llvm("llvm.umin")
def _(ex, a, rt_, n):
    w = int(n.rsplit(".i", 1)[1]); return a[0] if ex.decide(ex.cmp("ule", w, a[0], a[1])) else a[1]
@llvm("llvm.fabs")
def _(ex, a, rt_, n):
    v = a[0]
    return abs(v) if isinstance(v, float) else z3.If(v < 0, -v, v)
@llvm("llvm.stacksave")
def _(ex, a, rt_, n): return NULL
@llvm("llvm.stackrestore")
def _(ex, a, rt_, n): return None
@llvm("llvm.va_")
def _(ex, a, rt_, n): return None
@llvm("llvm.is.constant")
def _(ex, a, rt_, n): return 0
@llvm("llvm.bswap")
def _(ex, a, rt_, n):
    w = int(n.rsplit(".i", 1)[1])
    bs = [ex.byte_of(a[0], w // 8, j) for j in range(w // 8)]
    return ex.join(bs[::-1])

# ------------------------------------------------------------------ C++ runtime
@rt("_Znwm", "_Znam")
def _(ex, a, rt_, n):
    sz = a[0]
    if not isinstance(sz, int): sz = simp(sz)
    o = ex.new(sz if isinstance(sz, int) else None, "new", "heap")
    return Ptr(o, 0)
@rt("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t")
def _(ex, a, rt_, n): return RUNTIME["_Znwm"](ex, a, rt_, n)
@rt("_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def _(ex, a, rt_, n): return RUNTIME["_Znwm"](ex, a, rt_, n)
@rt("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "free")
def _(ex, a, rt_, n):
    p = a[0]
    if p.obj is None: return None
    if p.obj.kind != "heap" or p.off != 0: ex.safety(0, "delete of a non-heap pointer")
    if not p.obj.alive: ex.safety(0, "double delete")
    p.obj.alive = False; return None
@rt("malloc")
def _(ex, a, rt_, n): return RUNTIME["_Znwm"](ex, a, rt_, n)
@rt("__cxa_guard_acquire")
def _(ex, a, rt_, n):
    return 1 if ex.load(a[0], I8) == 0 else 0
@rt("__cxa_guard_release")
def _(ex, a, rt_, n): ex.store(a[0], I8, 1)
@rt("__cxa_guard_abort")
def _(ex, a, rt_, n): return None
@rt("__cxa_atexit", "__cxa_thread_atexit", "atexit")
def _(ex, a, rt_, n): return 0
@rt("__cxa_pure_virtual")
def _(ex, a, rt_, n): ex.safety(0, "pure virtual call")
@rt("__cxa_allocate_exception")
def _(ex, a, rt_, n): return Ptr(ex.new(a[0], "exception", "heap"), 0)
@rt("__cxa_free_exception")
def _(ex, a, rt_, n): return None
@rt("__cxa_throw")
def _(ex, a, rt_, n): raise CxxThrow(a[0], a[1].obj.name)
@rt("__cxa_begin_catch")
def _(ex, a, rt_, n):
    e = None
    for f in reversed(ex.frames):
        if f.exc is not None: e = f.exc; break
    ex.caught.append(e); return a[0]
@rt("__cxa_end_catch")
def _(ex, a, rt_, n):
    if ex.caught: ex.caught.pop()
    return None
@rt("__cxa_rethrow")
def _(ex, a, rt_, n):
    e = ex.caught[-1]; raise CxxThrow(e.ptr, e.tinfo)
@rt("__cxa_get_exception_ptr")
def _(ex, a, rt_, n): return a[0]
@rt("__clang_call_terminate", "_ZSt9terminatev", "abort")
def _(ex, a, rt_, n): ex.safety(0, "std::terminate / abort reached")
@rt("exit", "_exit", "_ZSt4exit")
def _(ex, a, rt_, n):
    ex.safety(0, "exit() reached")
@rt("__dynamic_cast")
def _(ex, a, rt_, n):
    src, sti, dti, hint = a
    if src.obj is None: return NULL
    # find the most derived type through the vtable
    vp = ex.load(src, PTR)
    ti = ex.load(Ptr(vp.obj, vp.off - 16), PTR); top = ex.load(Ptr(vp.obj, vp.off - 16 + 0), PTR)
    ott = ex.load(Ptr(vp.obj, vp.off - 16), I64)
    tip = ex.load(Ptr(vp.obj, vp.off - 8), PTR)
    off_top = sgn(ott, 64) if isinstance(ott, int) else 0
    full = Ptr(src.obj, (src.off + off_top) & 0xffffffffffffffff)
    r = ex.ti_match(tip.obj.name, dti.obj.name)
    if r is None: return NULL
    return Ptr(full.obj, full.off + r)
def throw_std(ex, ti):
    o = ex.new(16, "exception " + ti, "heap", "sym"); raise CxxThrow(Ptr(o, 0), ti)
@rt("_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz")
def _(ex, a, rt_, n): throw_std(ex, "_ZTISt12out_of_range")
@rt("_ZSt20__throw_length_errorPKc")
def _(ex, a, rt_, n): throw_std(ex, "_ZTISt12length_error")
@rt("_ZSt19__throw_logic_errorPKc")
def _(ex, a, rt_, n): throw_std(ex, "_ZTISt11logic_error")
@rt("_ZSt24__throw_invalid_argumentPKc")
def _(ex, a, rt_, n): throw_std(ex, "_ZTISt16invalid_argument")
@rt("_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv")
def _(ex, a, rt_, n): throw_std(ex, "_ZTISt9bad_alloc")
@rt("_ZSt16__throw_bad_castv")
def _(ex, a, rt_, n): throw_std(ex, "_ZTISt8bad_cast")
@rt("_ZSt25__throw_bad_function_callv")
def _(ex, a, rt_, n): throw_std(ex, "_ZTISt17bad_function_call")
@rt("_ZSt20__throw_system_errori")
def _(ex, a, rt_, n): throw_std(ex, "_ZTISt12system_error")
@rt("_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt12out_of_rangeD1Ev",
    "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc",
    "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
    "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
    "_ZNSt13runtime_errorC2ERKS_", "_ZNSt13runtime_errorC1ERKS_")
def _(ex, a, rt_, n): return None

# std::exception_ptr: a reference to an exception object, whose type is remembered
@rt("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv")
def _(ex, a, rt_, n): return None
@rt("_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv")
def _(ex, a, rt_, n): ex.store(a[0], PTR, a[1])
@rt("__cxa_init_primary_exception")
def _(ex, a, rt_, n):
    ex.ghost[("exc", a[0].obj.id)] = a[1].obj.name; return a[0]
@rt("_ZSt17current_exceptionv")
def _(ex, a, rt_, n):
    e = ex.caught[-1] if ex.caught else None
    if e is None: ex.store(a[0], PTR, NULL); return None
    ex.ghost[("exc", e.ptr.obj.id)] = e.tinfo; ex.store(a[0], PTR, e.ptr); return None
@rt("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def _(ex, a, rt_, n):
    p = ex.load(a[0], PTR)
    if p.obj is None: ex.safety(0, "rethrow of no exception")
    raise CxxThrow(p, ex.ghost[("exc", p.obj.id)])
@rt("_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv")
def _(ex, a, rt_, n): return 0

# ------------------------------------------------------------------ libc
@rt("fprintf", "printf", "puts", "fflush", "fputs", "perror", "putchar", "fwrite", "fputc")
def _(ex, a, rt_, n): return 0
def format_text(ex, fmt, args):
    """printf text as a list of bytes; a conversion of an unknown number or string gives eight arbitrary characters"""
    out = []; i = 0; k = 0
    def arbitrary():
        for _ in range(8):
            c = ex.fresh(8, "printf"); ex.add(c != 0); out.append(c)
    for m in re.finditer(r'%([-0 +#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j)?([a-zA-Z%])|([^%]+)', fmt):
        fl, wd, pr, ln, cv, lit = m.groups()
        if lit is not None: out += list(lit.encode("latin-1")); continue
        if cv == "%": out.append(37); continue
        if wd == "*" or pr == "*": raise Unsupported("printf format " + fmt)
        if k >= len(args): ex.safety(0, "printf: too few arguments")
        v = args[k]; k += 1
        bits = 64 if ln in ("ll", "l", "z", "j") else 32
        if cv in "diuxX" and ln in ("hh", "h"): raise Unsupported("printf format " + fmt)
        if cv in "diuxX":
            w = int(wd or 0)
            if isinstance(v, int):
                v &= (1 << bits) - 1
                t = "%" + fl + (wd or "") + ("." + pr if pr else "") + cv.replace("i", "d").replace("u", "d")
                out += list((t % (sgn(v, bits) if cv in "di" else v)).encode()); continue
            if cv in "xX" and not pr and fl in ("", "0"):
                d = 1
                while d * 4 < bits and not ex.decide(ex.cmp("ult", bits, v, 1 << (4 * d))): d += 1
                out += [48 if "0" in fl else 32] * max(0, w - d)
                for j in reversed(range(d)):
                    x = z3.ZeroExt(4, z3.Extract(4 * j + 3, 4 * j, v))
                    out.append(simp(z3.If(z3.ULT(x, 10), x + 48, x + (55 if cv == "X" else 87))))
                continue
            arbitrary(); continue
        if cv == "s":
            t = []
            for j in range(1 << 16):
                b = ex.load(Ptr(v.obj, ex.bin("add", 64, v.off, j)), I8)
                if not isinstance(b, int): t = None; break
                if b == 0: break
                t.append(b)
            if t is None: arbitrary()
            else: out += t
            continue
        arbitrary()
    return out
@rt("vsnprintf")
def _(ex, a, rt_, n):
    fr = [f for f in ex.frames if getattr(f, "varargs", None) is not None][-1]
    t = format_text(ex, ex.cstring(a[2]), fr.varargs)
    size = ex.concretize(a[1])
    if size:
        for j, c in enumerate(t[:size - 1]): ex.store(Ptr(a[0].obj, a[0].off + j), I8, c)
        ex.store(Ptr(a[0].obj, a[0].off + min(len(t), size - 1)), I8, 0)
    return len(t)
@rt("snprintf", "sprintf")
def _(ex, a, rt_, n):
    k = 3 if n == "snprintf" else 2
    t = format_text(ex, ex.cstring(a[k - 1]), a[k:])
    size = ex.concretize(a[1]) if k == 3 else 1 << 30
    if size:
        for j, c in enumerate(t[:size - 1]): ex.store(Ptr(a[0].obj, a[0].off + j), I8, c)
        ex.store(Ptr(a[0].obj, a[0].off + min(len(t), size - 1)), I8, 0)
    return len(t)
@rt("memcmp", "bcmp")
def _(ex, a, rt_, n):
    k = ex.concretize(a[2], "memcmp length")
    for j in range(k):
        x = ex.load(Ptr(a[0].obj, ex.bin("add", 64, a[0].off, j)), I8); y = ex.load(Ptr(a[1].obj, ex.bin("add", 64, a[1].off, j)), I8)
        if not ex.decide(ex.cmp("eq", 8, x, y)):
            return 0xffffffff if ex.decide(ex.cmp("ult", 8, x, y)) else 1
    return 0
@rt("memcpy", "memmove")
def _(ex, a, rt_, n): ex.memcpy(a[0], a[1], a[2]); return a[0]
@rt("memset")
def _(ex, a, rt_, n): ex.memset(a[0], a[1] & 0xff if isinstance(a[1], int) else simp(z3.Extract(7, 0, a[1])), a[2]); return a[0]
@rt("strcmp")
def _(ex, a, rt_, n):
    for j in range(1 << 12):
        x = ex.load(Ptr(a[0].obj, ex.bin("add", 64, a[0].off, j)), I8); y = ex.load(Ptr(a[1].obj, ex.bin("add", 64, a[1].off, j)), I8)
        if not ex.decide(ex.cmp("eq", 8, x, y)):
            return 0xffffffff if ex.decide(ex.cmp("ult", 8, x, y)) else 1
        if ex.decide(ex.cmp("eq", 8, x, 0)): return 0
    raise Unsupported("strcmp")
@rt("strlen")
def _(ex, a, rt_, n):
    o = a[0].obj
    if isinstance(o, Buf) and is_sym(o.len) and not isinstance(simp(o.len), int):
        ex.buf_flush(o); arr = o.arr; off = bv(a[0].off, 64); left = bv(o.len, 64) - off
        k = ex.fresh(64, "strlen"); ex.add(z3.ULE(k, left)); ex.add(z3.Or(k == left, z3.Select(arr, off + k) == 0))
        ex.know(arr, lambda i: z3.Implies(z3.And(z3.UGE(i, off), z3.ULT(i, off + k)), z3.Select(arr, i) != 0))
        return k
    j = 0
    while True:
        x = ex.load(Ptr(o, ex.bin("add", 64, a[0].off, j)), I8)
        if ex.decide(ex.cmp("eq", 8, x, 0)): return j
        j += 1
def ctype(pred):
    def f(ex, a, rt_, n):
        c = a[0]
        r = pred(c)
        if isinstance(r, bool) or isinstance(r, int): return int(r)
        return simp(z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    return f
def rng(c, lo, hi):
    if isinstance(c, int): return lo <= c <= hi
    return z3.And(z3.UGE(c, lo), z3.ULE(c, hi))
def anyof(*cs):
    if all(isinstance(c, bool) for c in cs): return any(cs)
    return z3.Or(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in cs])
RUNTIME["isdigit"] = ctype(lambda c: rng(c, 48, 57))
RUNTIME["isalpha"] = ctype(lambda c: anyof(rng(c, 65, 90), rng(c, 97, 122)))
RUNTIME["isalnum"] = ctype(lambda c: anyof(rng(c, 48, 57), rng(c, 65, 90), rng(c, 97, 122)))
RUNTIME["isxdigit"] = ctype(lambda c: anyof(rng(c, 48, 57), rng(c, 65, 70), rng(c, 97, 102)))
RUNTIME["isspace"] = ctype(lambda c: anyof(rng(c, 9, 13), rng(c, 32, 32)))
RUNTIME["isupper"] = ctype(lambda c: rng(c, 65, 90))
RUNTIME["islower"] = ctype(lambda c: rng(c, 97, 122))
@rt("tolower")
def _(ex, a, rt_, n):
    c = a[0]
    if isinstance(c, int): return c + 32 if 65 <= c <= 90 else c
    return simp(z3.If(rng(c, 65, 90), c + 32, c))
@rt("toupper")
def _(ex, a, rt_, n):
    c = a[0]
    if isinstance(c, int): return c - 32 if 97 <= c <= 122 else c
    return simp(z3.If(rng(c, 97, 122), c - 32, c))
@rt("__errno_location")
def _(ex, a, rt_, n):
    if ex.errno_obj is None: ex.errno_obj = ex.new(4, "errno", "global", "zero")
    return Ptr(ex.errno_obj, 0)

# ------------------------------------------------------------------ threads
def lock_event(ex, p, what): ex.events.append((what, p))
@rt("pthread_mutex_lock")
def _(ex, a, rt_, n):
    p = a[0]; k = ("lock", p.obj.id, p.off)
    if ex.ghost.get(k):
        ex.safety(0, "deadlock: mutex locked twice by one thread")
    ex.ghost[k] = 1
    lock_event(ex, p, "lock")
    m = ex.monitors.get((p.obj.id, p.off))
    if m and m[1].obj is not None: ex.call_ptr(m[1], [m[0]], None)
    return 0
@rt("pthread_mutex_trylock")
def _(ex, a, rt_, n):
    p = a[0]; k = ("lock", p.obj.id, p.off)
    if ex.decide(ex.fresh(1, "trylock")): return RUNTIME["pthread_mutex_lock"](ex, a, rt_, n)
    return 16
@rt("pthread_mutex_unlock")
def _(ex, a, rt_, n):
    p = a[0]; k = ("lock", p.obj.id, p.off)
    if not ex.ghost.get(k): ex.safety(0, "unlock of a mutex that is not held")
    m = ex.monitors.get((p.obj.id, p.off))
    if m and m[2].obj is not None: ex.call_ptr(m[2], [m[0]], None)
    ex.ghost[k] = 0
    lock_event(ex, p, "unlock")
    return 0
@rt("_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev")
def _(ex, a, rt_, n): return None
@rt("_ZNSt18condition_variable10notify_oneEv")
def _(ex, a, rt_, n): ex.events.append(("notify", a[0])); ex.events.append(("notify_one", a[0])); return None
@rt("_ZNSt18condition_variable10notify_allEv")
def _(ex, a, rt_, n): ex.events.append(("notify", a[0])); ex.events.append(("notify_all", a[0])); return None
def sleep_hook(ex, cv, timed):
    """a specification may say when a thread is entitled to sleep: called, under the lock, whenever it would"""
    h = ex.ghost.get(("sleep",))
    if h: ex.call_ptr(h[0], [h[1], cv, timed], None)
@rt("irv_on_sleep")
def _(ex, a, rt_, n): ex.ghost[("sleep",)] = (a[0], a[1]); return None
def cv_wait(ex, cv, lockp, timed):
    mp = ex.load(lockp, PTR)
    owns = ex.load(Ptr(lockp.obj, lockp.off + 8), I8)
    if owns == 0: ex.safety(0, "condition wait without owning the lock")
    sleep_hook(ex, cv, timed)
    ex.events.append(("wait", mp))
    RUNTIME["pthread_mutex_unlock"](ex, [mp], None, None)
    RUNTIME["pthread_mutex_lock"](ex, [mp], None, None)
@rt("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE")
def _(ex, a, rt_, n): cv_wait(ex, a[0], a[1], 0); return None
def cv_pred(ex, n, fn, a, skip):
    """template <.., Pred> wait*(lock, .., pred): the predicate as a function of no arguments"""
    pred = None
    for b in ex.m.body(fn).values():
        for ins in b:
            if ins[0] in ("call", "invoke") and ins[3][0] == "g" and ins[2].k == "i" and ins[2].n == 1 and len(ins[4]) == 1 and "condition_variable" not in ex.dem.get(ins[3][1], ""): pred = ins
    if pred is None: raise Unsupported("condition_variable::wait template shape: " + ex.dem.get(n, n))
    cargs = a[skip:]; ptypes = fn.params[skip:]
    hold = ex.new(64, "pred", "stack"); off = 0
    if len(ptypes) == 1 and ptypes[0][0].k == "ptr" and not ptypes[0][1].startswith("__p.coerce"):
        pp = cargs[0]
    else:
        for (t, nm, at), v in zip(ptypes, cargs):
            ex.store(Ptr(hold, off), t, v); off += 8
        pp = Ptr(hold, 0)
    return lambda: ex.call(pred[3][1], [pp], None)
@cxx("std::condition_variable::wait")
def _(ex, a, rt_, n, q, ar):
    # template <Pred> wait(lock, pred): partial correctness of `while (!pred()) wait(lock)`.  After a wait the
    # protected state is arbitrary (monitor invariant), so one round stands for every number of rounds.
    fn = ex.m.funcs.get(n)
    if fn is None or not fn.defined: return NOT_HANDLED
    pred = cv_pred(ex, n, fn, a, 2)
    if ex.decide(pred()): return None
    cv_wait(ex, a[0], a[1], 0)
    if not ex.decide(pred()):
        sleep_hook(ex, a[0], 0)
        raise PathEnd("assume-false")  # goes on waiting, from a state that is already covered
    return None
@cxx("std::condition_variable::wait_until")
def _(ex, a, rt_, n, q, ar):
    fn = ex.m.funcs.get(n)
    if fn is None or not fn.defined: return NOT_HANDLED
    ex.m.header(fn)
    if fn.ret.k == "i" and fn.ret.n == 1:
        # wait_until(lock, time, pred): whether the predicate holds, now or after waiting for an arbitrary time
        pred = cv_pred(ex, n, fn, a, 3)
        if ex.decide(pred()): return 1
        cv_wait(ex, a[0], a[1], 1)
        if ex.decide(pred()): return 1
        sleep_hook(ex, a[0], 1)  # it would wait on, when there is time left
        return 0
    cv_wait(ex, a[0], a[1], 1)
    return 1 if ex.decide(ex.fresh(1, "timeout")) else 0
@rt("pthread_self")
def _(ex, a, rt_, n): return 1
@rt("_ZNSt6thread4joinEv")
def _(ex, a, rt_, n):
    ex.store(a[0], I64, 0); ex.events.append(("join", a[0])); return None
@rt("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE")
def _(ex, a, rt_, n):
    ex.store(a[0], I64, 77); ex.events.append(("thread", a[0])); return None
@rt("_ZNSt6chrono3_V212system_clock3nowEv")
def _(ex, a, rt_, n):
    v = ex.fresh(64, "now"); ex.add(z3.And(v >= 0, v < (1 << 62))); return v
@rt("_ZNSt6chrono3_V212steady_clock3nowEv")
def _(ex, a, rt_, n):
    v = ex.fresh(64, "now"); ex.add(z3.And(v >= 0, v < (1 << 62))); return v

import strings  # noqa: registers the std::string contracts
import streams  # noqa: std::ostringstream, number parsing and formatting
import rbtree  # noqa: std::map, std::set
@rt("irv_unsupported")
def _(ex, a, rt_, n): raise Unsupported(ex.cstring(a[0]))
