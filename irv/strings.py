"""Contracts of std::string (libstdc++ keeps its members behind extern templates, so the IR has only declarations).
A string is a ghost value attached to the address of the std::string object: a byte buffer with a length that may be
symbolic."""
import z3, re
import models
from models import cxx, rt, NOT_HANDLED, BYRX, RUNTIME, throw_std
from execu import Ptr, NULL, UNDEF, PathEnd, Buf, simp, tob, bv, is_sym
from ll import Unsupported, I8, I64, PTR

NPOS = (1 << 64) - 1
MAXLEN = 1 << 40
B = "std::__cxx11::basic_string::"

def get(ex, p):
    if p is UNDEF: raise Unsupported("string at undef")
    if p.obj is None: ex.safety(0, "null std::string")
    if not p.obj.alive: ex.safety(0, "use of a std::string in freed memory (%s)" % p.obj.name)
    s = ex.ghost.get((p.obj.id, p.off))
    if s is None:
        raise Unsupported("std::string at %r is not constructed" % p)
    return s
def put(ex, p, buf):
    if not isinstance(p.off, int): raise Unsupported("string at symbolic offset")
    ex.ghost[(p.obj.id, p.off)] = buf
    if ex.wctx: ex.note_write(p.obj, p.off)
def mk(ex, data=b"", name="str"):
    b = ex.new_buf(len(data), name, None, {i: c for i, c in enumerate(data)}); b.model = "str"; return b
def touch(ex, p, b):
    if ex.wctx: ex.note_write(b, -1)
def clone(ex, s, name="str"):
    b = ex.new_buf(s.len, name, s.arr, dict(s.bytes)); b.model = "str"; return b
def add(ex, a, b): return ex.bin("add", 64, a, b)
def sub(ex, a, b): return ex.bin("sub", 64, a, b)

def defined_arr(ex, parts, name):
    """a fresh array given by (condition, value) at every index; the equations are added for the indices that are read"""
    arr = ex.fresh_arr(name)
    for cond, val in parts:
        def f(i, cond=cond, val=val):
            e = z3.Select(arr, i) == val(i)
            return e if cond is None else z3.Implies(cond(i), e)
        ex.know(arr, f)
    return arr
def sub_buf(ex, src, off, ln, name="str"):
    """fresh buffer with bytes src[off .. off+ln) ; src is a Buf or any object"""
    if isinstance(ln, int) and (isinstance(off, int) or ln <= 64):
        b = ex.new_buf(ln, name, None, {}); b.model = "str"
        for i in range(ln):
            if isinstance(src, Buf): b.bytes[i] = ex.buf_get(src, add(ex, off, i))
            else: b.bytes[i] = ex.load(Ptr(src, add(ex, off, i)), I8)
        return b
    if not isinstance(src, Buf):
        return sub_buf(ex, src, off, ex.concretize(ln, "string length"), name)
    ex.buf_flush(src)
    i = z3.BitVec("i!sub", 64)
    if isinstance(off, int) and off == 0: arr = src.arr
    else: arr = defined_arr(ex, [(None, lambda i, sa=src.arr, o=bv(off, 64): ex.select(sa, i + o))], "sub")
    b = ex.new_buf(ln, name, arr, {}); b.model = "str"
    return b

def append_buf(ex, dst, src, off, ln):
    """dst += src[off..off+ln)"""
    if isinstance(ln, int) and ln <= 4096:
        for i in range(ln):
            v = ex.buf_get(src, add(ex, off, i)) if isinstance(src, Buf) else ex.load(Ptr(src, add(ex, off, i)), I8)
            ex.buf_set(dst, add(ex, dst.len, i), v)
        dst.len = add(ex, dst.len, ln); return
    if not isinstance(src, Buf): return append_buf(ex, dst, src, off, ex.concretize(ln, "append length"))
    ex.buf_flush(dst); ex.buf_flush(src)
    L = bv(dst.len, 64)
    dst.arr = defined_arr(ex, [(lambda i: z3.ULT(i, L), lambda i, da=dst.arr: ex.select(da, i)), (lambda i: z3.UGE(i, L), lambda i, sa=src.arr, o=bv(off, 64): ex.select(sa, i - L + o))], "app")
    dst.len = add(ex, dst.len, ln)

def cstrlen(ex, p):
    return RUNTIME["strlen"](ex, [p], None, None)

def range_of(ex, p, n):
    return p.obj, p.off, n

def eq_buf(ex, a, b):
    if a is b: return 1
    la, lb = a.len, b.len
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb: return 0
        cs = []
        for i in range(la):
            c = ex.cmp("eq", 8, ex.buf_get(a, i), ex.buf_get(b, i))
            if c is UNDEF: return UNDEF
            if isinstance(c, int):
                if not c: return 0
            else: cs.append(tob(c))
        return simp(z3.And(*cs)) if cs else 1
    if isinstance(la, int) or isinstance(lb, int):
        k = la if isinstance(la, int) else lb
        if k <= 256:
            cs = [tob(ex.cmp("eq", 64, la, lb))]
            for i in range(k): cs.append(tob(ex.cmp("eq", 8, ex.buf_get(a, i), ex.buf_get(b, i))))
            return simp(z3.And(*cs))
    ex.buf_flush(a); ex.buf_flush(b)
    if a.arr.eq(b.arr): return ex.cmp("eq", 64, la, lb)
    e = ex.fresh(1, "streq"); w = ex.fresh(64, "strdiff"); L = bv(la, 64); et = tob(e)
    aa, ba = a.arr, b.arr
    ex.add(z3.Implies(et, L == bv(lb, 64)))
    ex.add(z3.Or(et, L != bv(lb, 64), z3.And(z3.ULT(w, L), z3.Select(aa, w) != z3.Select(ba, w))))
    ex.select(aa, w); ex.select(ba, w)
    ex.know(aa, lambda i: z3.Implies(z3.And(et, z3.ULT(i, L)), z3.Select(aa, i) == ex.select(ba, i)))
    ex.know(ba, lambda i: z3.Implies(z3.And(et, z3.ULT(i, L)), z3.Select(ba, i) == ex.select(aa, i)))
    for arr in (aa, ba):
        for kk, i in list(ex.reads.get(arr.get_id(), {}).items()): ex.instantiate(arr, i)
    return e

def lt_buf(ex, a, b):
    """lexicographic a < b by deciding byte by byte (concrete lengths) """
    la, lb = ex.concretize(a.len, "string length"), ex.concretize(b.len, "string length")
    for i in range(min(la, lb)):
        x, y = ex.buf_get(a, i), ex.buf_get(b, i)
        if not ex.decide(ex.cmp("eq", 8, x, y)):
            return -1 if ex.decide(ex.cmp("ult", 8, x, y)) else 1
    return -1 if la < lb else (0 if la == lb else 1)

# -- intrinsics over strings
@rt("irv_any_string")
def _(ex, a, rt_, n):
    """a[0]: std::string*, (constructed); a[1]: maximal length"""
    arr = ex.fresh_arr("str"); ln = ex.fresh(64, "slen")
    ex.add(z3.ULE(ln, bv(a[1], 64)))
    b = ex.new_buf(ln, "any_string", arr, {}); b.model = "str"
    put(ex, a[0], b)
    ex.inputs.append(dict(k="str", s=ex.streams[-1], len=ln, arr=arr)); return None
@rt("irv_any_string_n")
def _(ex, a, rt_, n):
    """arbitrary bytes, concrete length a[1]"""
    arr = ex.fresh_arr("str"); ln = a[1]
    b = ex.new_buf(ln, "any_string", arr, {}); b.model = "str"
    put(ex, a[0], b)
    ex.inputs.append(dict(k="str", s=ex.streams[-1], len=ln, arr=arr)); return None
@rt("irv_havoc_string")
def _(ex, a, rt_, n):
    arr = ex.fresh_arr("hstr"); ln = ex.fresh(64, "hslen"); ex.add(z3.ULE(ln, MAXLEN))
    b = get(ex, a[0]); b.arr = arr; b.bytes = {}; b.len = ln
    touch(ex, a[0], b)
    if ex.wctx: ex.note_write(a[0].obj, a[0].off)
    return None
@rt("irv_str_len")
def _(ex, a, rt_, n): return get(ex, a[0]).len
@rt("irv_str_at")
def _(ex, a, rt_, n):
    v = ex.buf_get(get(ex, a[0]), a[1])
    return 0 if v is UNDEF else v
@rt("irv_none_in")
def _(ex, a, rt_, n):
    """assumed: no position of [from, to) of the string holds one of the characters"""
    s = get(ex, a[0]); ex.buf_flush(s); arr = s.arr; lo, hi = bv(a[1], 64), bv(a[2], 64); cs = [ord(c) for c in ex.cstring(a[3])]
    ex.know(arr, lambda i: z3.Implies(z3.And(z3.UGE(i, lo), z3.ULT(i, hi)), z3.And(*[z3.Select(arr, i) != c for c in cs])))
    for kk, i in list(ex.reads.get(arr.get_id(), {}).items()): ex.instantiate(arr, i)
    return None
@rt("irv_str_is")
def _(ex, a, rt_, n):
    return 1 if (a[0].obj is not None and (a[0].obj.id, a[0].off) in ex.ghost) else 0

# -- constructors
def ctor(ex, a, rt_, n, q, ar):
    p = a[0]
    args = ar[1:-1] if ar.endswith(")") else ar
    at = [x.strip() for x in split_args(ar)]
    if len(a) == 1 or (len(at) == 1 and "allocator" in at[0]) or at == []:
        put(ex, p, mk(ex)); return None
    t0 = at[0]
    isstr = lambda t: "basic_string" in t and "view" not in t and "*" not in t
    if isstr(t0):
        s = get(ex, a[1])
        if "&&" in t0:
            put(ex, p, s); put(ex, a[1], mk(ex)); return None
        if len(at) == 1 or (len(at) == 2 and "allocator" in at[1]):
            put(ex, p, clone(ex, s)); return None
        pos = a[2]
        if not ex.decide(ex.cmp("ule", 64, pos, s.len)): throw_std(ex, "_ZTISt12out_of_range")
        rest = sub(ex, s.len, pos)
        cnt = a[3] if len(at) >= 3 and "allocator" not in at[2] else NPOS
        ln = umin(ex, cnt, rest)
        put(ex, p, sub_buf(ex, s, pos, ln)); return None
    if t0 == "char const*":
        if len(at) >= 2 and at[1].startswith("unsigned long"):
            put(ex, p, sub_buf(ex, a[1].obj, a[1].off, a[2])); return None
        if len(at) >= 2 and at[1] == "char const*":
            put(ex, p, sub_buf(ex, a[1].obj, a[1].off, sub(ex, a[2].off, a[1].off))); return None
        if len(at) == 1 or "allocator" in at[1]:
            ln = cstrlen(ex, a[1]); put(ex, p, sub_buf(ex, a[1].obj, a[1].off, ln)); return None
    if t0 == "unsigned long" and at[1] == "char":
        k = a[1]
        if isinstance(k, int) and k < 65536:
            b = mk(ex); b.len = k
            for i in range(k): b.bytes[i] = a[2]
        else:
            b = mk(ex); b.len = k; b.arr = z3.K(z3.BitVecSort(64), bv(a[2], 8))
        put(ex, p, b); return None
    if t0.startswith("__gnu_cxx::__normal_iterator") or t0 == "char*":
        # iterators are pointers in the IR (passed as i64/ptr)
        x, y = ptr(ex, a[1]), ptr(ex, a[2])
        if x.obj is not y.obj: raise Unsupported("string from two ranges")
        if x.obj is None: put(ex, p, mk(ex)); return None
        put(ex, p, sub_buf(ex, x.obj, x.off, sub(ex, y.off, x.off))); return None
    if t0.startswith("std::initializer_list"):
        q0, ln = ptr(ex, a[1]), a[2]
        put(ex, p, sub_buf(ex, q0.obj, q0.off, ln)); return None
    raise Unsupported("std::string constructor %s" % ar)
def ptr(ex, v):
    return v if isinstance(v, Ptr) else ex.from_addr(v)
def split_args(ar):
    s = ar[ar.find("(")+1: ar.rfind(")")]
    out = []; d = 0; cur = ""
    for c in s:
        if c in "(<[": d += 1
        if c in ")>]": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
cxx(B + "basic_string")(ctor)

def umin(ex, a, b):
    c = ex.cmp("ult", 64, a, b)
    if isinstance(c, int): return a if c else b
    if ex.decide(c): return a
    return b

@cxx(B + "~basic_string")
def _(ex, a, rt_, n, q, ar):
    if a[0].obj is not None: ex.ghost.pop((a[0].obj.id, a[0].off), None)
    return None
@cxx("std::allocator::allocator", "std::allocator::~allocator", "std::__new_allocator::__new_allocator")
def _(ex, a, rt_, n, q, ar): return None

@cxx(B + "operator=")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar)[0]
    if t == "char const*":
        nb = sub_buf(ex, a[1].obj, a[1].off, cstrlen(ex, a[1]))
    elif t == "char":
        nb = mk(ex); nb.len = 1; nb.bytes[0] = a[1]
    elif "basic_string&&" in t:
        nb = get(ex, a[1])
        if a[1].obj is a[0].obj and a[1].off == a[0].off: return a[0]
        put(ex, a[1], mk(ex))
    elif "basic_string" in t and "view" not in t: nb = clone(ex, get(ex, a[1]))
    else: raise Unsupported("string operator= " + t)
    put(ex, a[0], nb); return a[0]

def do_append(ex, a, t):
    s = get(ex, a[0])
    touch(ex, a[0], s)
    t0 = t[0] if t else ""
    if t0 == "char": 
        ex.buf_set(s, s.len, a[1]); s.len = add(ex, s.len, 1)
    elif t0 == "char const*" and len(t) == 1:
        ln = cstrlen(ex, a[1]); append_buf(ex, s, a[1].obj, a[1].off, ln)
    elif t0 == "char const*" and t[1] == "unsigned long":
        append_buf(ex, s, a[1].obj, a[1].off, a[2])
    elif t0 in ("char const*", "char*") or t0.startswith("__gnu_cxx::__normal_iterator"):
        x, y = ptr(ex, a[1]), ptr(ex, a[2]); append_buf(ex, s, x.obj, x.off, sub(ex, y.off, x.off))
    elif "basic_string" in t0 and "view" not in t0 and len(t) == 1:
        o = get(ex, a[1]); 
        if o is s: o = clone(ex, o)
        append_buf(ex, s, o, 0, o.len)
    elif t0 == "unsigned long" and t[1] == "char":
        k = a[1]
        if not isinstance(k, int):
            tmp = mk(ex); tmp.len = k; tmp.arr = z3.K(z3.BitVecSort(64), bv(a[2], 8))
            append_buf(ex, s, tmp, 0, k)
        else:
            for i in range(k): ex.buf_set(s, add(ex, s.len, i), a[2])
            s.len = add(ex, s.len, k)
    elif "basic_string" in t0 and "view" not in t0 and len(t) >= 2:
        o = get(ex, a[1]); pos = a[2]; cnt = a[3] if len(t) > 2 else NPOS
        if not ex.decide(ex.cmp("ule", 64, pos, o.len)): throw_std(ex, "_ZTISt12out_of_range")
        ln = umin(ex, cnt, sub(ex, o.len, pos)); append_buf(ex, s, o, pos, ln)
    else: raise Unsupported("string append %s" % t)
@cxx(B + "append", B + "operator+=")
def _(ex, a, rt_, n, q, ar):
    do_append(ex, a, split_args(ar)); return a[0]
@cxx(B + "push_back")
def _(ex, a, rt_, n, q, ar):
    do_append(ex, a, ["char"]); return None
@cxx(B + "pop_back")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[0]); touch(ex, a[0], s)
    ex.safety(tob(ex.cmp("ugt", 64, s.len, 0)), "pop_back of an empty string")
    s.len = sub(ex, s.len, 1); return None
@cxx(B + "assign")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar)
    if len(t) == 1 and "basic_string" in t[0]:
        if "&&" in t[0]:
            nb = get(ex, a[1]); put(ex, a[1], mk(ex))
        else: nb = clone(ex, get(ex, a[1]))
        put(ex, a[0], nb); return a[0]
    tmp = ex.new(32, "tmpstr", "stack"); put(ex, Ptr(tmp, 0), mk(ex))
    do_append(ex, [Ptr(tmp, 0)] + a[1:], t)
    put(ex, a[0], get(ex, Ptr(tmp, 0))); return a[0]
@cxx(B + "clear")
def _(ex, a, rt_, n, q, ar): put(ex, a[0], mk(ex)); return None
@cxx(B + "reserve", B + "shrink_to_fit")
def _(ex, a, rt_, n, q, ar): return None
@cxx(B + "resize")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[0]); c = a[2] if len(a) > 2 else 0
    touch(ex, a[0], s)
    if ex.decide(ex.cmp("ule", 64, a[1], s.len)): s.len = a[1]
    else:
        k = ex.concretize(sub(ex, a[1], s.len), "resize")
        for i in range(k): ex.buf_set(s, add(ex, s.len, i), c)
        s.len = a[1]
    return None
@cxx(B + "size", B + "length")
def _(ex, a, rt_, n, q, ar): return get(ex, a[0]).len
@cxx(B + "capacity", B + "max_size")
def _(ex, a, rt_, n, q, ar): return 1 << 62
@cxx(B + "empty")
def _(ex, a, rt_, n, q, ar): return ex.cmp("eq", 64, get(ex, a[0]).len, 0)
@cxx(B + "operator[]")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[0])
    ex.safety(tob(ex.cmp("ule", 64, a[1], s.len)), "string index out of range")
    return Ptr(s, a[1])
@cxx(B + "at")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[0])
    if not ex.decide(ex.cmp("ult", 64, a[1], s.len)): throw_std(ex, "_ZTISt12out_of_range")
    return Ptr(s, a[1])
@cxx(B + "front")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[0]); ex.safety(tob(ex.cmp("ugt", 64, s.len, 0)), "front() of an empty string"); return Ptr(s, 0)
@cxx(B + "back")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[0]); ex.safety(tob(ex.cmp("ugt", 64, s.len, 0)), "back() of an empty string"); return Ptr(s, sub(ex, s.len, 1))
@cxx(B + "begin", B + "cbegin", B + "data", B + "c_str", B + "_M_data")
def _(ex, a, rt_, n, q, ar): return Ptr(get(ex, a[0]), 0)
@cxx(B + "end", B + "cend")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[0]); return Ptr(s, s.len)
@cxx(B + "rbegin", B + "rend", B + "crbegin", B + "crend")
def _(ex, a, rt_, n, q, ar):
    # sret reverse_iterator { pointer }
    s = get(ex, a[1]); ex.raw_store(a[0], 8, Ptr(s, s.len if "rbegin" in q else 0)); return None
@cxx(B + "substr")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[1]); pos, cnt = a[2], a[3]
    if not ex.decide(ex.cmp("ule", 64, pos, s.len)): throw_std(ex, "_ZTISt12out_of_range")
    ln = umin(ex, cnt, sub(ex, s.len, pos))
    put(ex, a[0], sub_buf(ex, s, pos, ln)); return None
@cxx(B + "swap")
def _(ex, a, rt_, n, q, ar):
    x, y = get(ex, a[0]), get(ex, a[1]); put(ex, a[0], y); put(ex, a[1], x); return None
@cxx(B + "compare")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar); s = get(ex, a[0])
    if len(t) == 1 and "basic_string" in t[0]: o = get(ex, a[1])
    elif len(t) == 1 and t[0] == "char const*": o = sub_buf(ex, a[1].obj, a[1].off, cstrlen(ex, a[1]))
    elif len(t) == 3 and t[0] == "unsigned long":
        pos = a[1]
        if not ex.decide(ex.cmp("ule", 64, pos, s.len)): throw_std(ex, "_ZTISt12out_of_range")
        s = sub_buf(ex, s, pos, umin(ex, a[2], sub(ex, s.len, pos)))
        o = get(ex, a[3]) if "basic_string" in t[2] else sub_buf(ex, a[3].obj, a[3].off, cstrlen(ex, a[3]))
    else: raise Unsupported("string compare %s" % ar)
    e = eq_buf(ex, s, o)
    if ex.decide(e): return 0
    if isinstance(s.len, int) and isinstance(o.len, int): return lt_buf(ex, s, o) & 0xffffffff
    return 1 if ex.decide(ex.fresh(1, "strcmp")) else 0xffffffff
def str_or_c(ex, v, t):
    if "basic_string" in t: return get(ex, v)
    return sub_buf(ex, v.obj, v.off, cstrlen(ex, v))
@cxx("std::operator==", "std::operator!=", "std::operator<", "std::operator>", "std::operator<=", "std::operator>=")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar)
    if len(t) != 2: return NOT_HANDLED
    st = lambda x: bool(re.match(r'std::__cxx11::basic_string(?! ?_?view)\s*(const)?\s*&', x)) or x == "char const*"
    if not (st(t[0]) and st(t[1])): return NOT_HANDLED
    x, y = str_or_c(ex, a[0], t[0]), str_or_c(ex, a[1], t[1])
    op = q[len("std::operator"):]
    if op in ("==", "!="):
        e = eq_buf(ex, x, y)
        return e if op == "==" else ex.bin("xor", 1, e, 1)
    c = lt_buf(ex, x, y)
    return int({"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op])

def find_generic(ex, s, start, match, n_needed=1):
    """first i >= start with match(i); symbolic lengths are handled by deciding position by position when concrete"""
    L = ex.concretize(s.len, "string length in find"); st = ex.concretize(start, "find start")
    for i in range(st, L - n_needed + 1):
        if ex.decide(match(i)): return i
    return NPOS
def find_contract(ex, s, kind, pos, chars):
    """search in a string of arbitrary length: the position (arbitrary, with the property that defines it), or none"""
    ex.buf_flush(s); arr = s.arr; L = bv(s.len, 64); p = bv(pos, 64)
    cs = [bv(c, 8) for c in chars]
    neg = kind.endswith("not_of"); last = kind in ("rfind", "find_last_of", "find_last_not_of")
    seq = kind == "find" and len(chars) > 1  # the characters one after another
    def hit(i, sel=None):
        if seq: return z3.And(*[z3.Select(arr, i + j) == x for j, x in enumerate(cs)])
        c = z3.Select(arr, i)
        m = z3.Or(*[c == x for x in cs])
        return z3.Not(m) if neg else m
    key = (arr.get_id(), simp(L).get_id() if is_sym(simp(L)) else simp(L), kind, pos if isinstance(pos, int) else simp(p).get_id(), tuple(c if isinstance(c, int) else c.get_id() for c in chars))
    c = ex.find_cache.get(key)
    if c is not None: return c[0]
    k = ex.fresh(64, kind)
    ex.instantiate_in(simp(hit(k)), 0)
    if last:
        top = z3.If(z3.ULT(p, L), p, L - 1)  # the last position looked at, when there is one
        inside = z3.And(L != 0, z3.ULE(k, top), hit(k))
        found = ex.fresh(1, "found") 
        if ex.decide(z3.And(found, inside)):
            ex.know(arr, lambda i: z3.Implies(z3.And(z3.UGT(i, k), z3.ULE(i, top)), z3.Not(hit(i)))); r = k
        else:
            ex.add(z3.Not(found)); ex.know(arr, lambda i: z3.Implies(z3.And(L != 0, z3.ULE(i, top)), z3.Not(hit(i)))); r = NPOS
    else:
        found = ex.fresh(1, "found")
        if seq: L = z3.If(z3.ULT(L, len(cs)), z3.BitVecVal(0, 64), L - (len(cs) - 1))
        inside = z3.And(z3.UGE(k, p), z3.ULT(k, L), hit(k))
        if ex.decide(z3.And(found, inside)):
            ex.know(arr, lambda i: z3.Implies(z3.And(z3.UGE(i, p), z3.ULT(i, k)), z3.Not(hit(i)))); r = k
        else:
            ex.add(z3.Not(found)); ex.know(arr, lambda i: z3.Implies(z3.And(z3.UGE(i, p), z3.ULT(i, L)), z3.Not(hit(i)))); r = NPOS
    ex.find_cache[key] = (r, arr, L, p, cs)
    # instances for the positions already read
    for kk, i in list(ex.reads.get(arr.get_id(), {}).items()): ex.instantiate(arr, i)
    return r
@cxx(B + "find", B + "find_first_of", B + "find_first_not_of", B + "rfind", B + "find_last_of", B + "find_last_not_of")
def _(ex, a, rt_, n, q, ar):
    s = get(ex, a[0]); t = split_args(ar); kind = q[len(B):]
    pos = a[2] if len(a) > 2 else 0
    if len(t) == 3: pos = a[2]
    if t[0] == "char": chars = None; ch = a[1]
    elif "basic_string" in t[0]:
        o = get(ex, a[1]); ol = ex.concretize(o.len, "needle"); chars = [ex.buf_get(o, i) for i in range(ol)]
    elif t[0] == "char const*":
        ol = ex.concretize(a[3], "needle") if len(t) == 3 else cstrlen(ex, a[1])
        chars = [ex.load(Ptr(a[1].obj, ex.bin("add", 64, a[1].off, i)), I8) for i in range(ol)]
    else: raise Unsupported("string find %s" % ar)
    at = lambda i: ex.buf_get(s, i)
    def one(i):
        if chars is None: return ex.cmp("eq", 8, at(i), ch)
        return simp(z3.Or(*[tob(ex.cmp("eq", 8, at(i), c)) for c in chars])) if chars else 0
    def seq(i):
        if chars is None: return ex.cmp("eq", 8, at(i), ch)
        return simp(z3.And(*[tob(ex.cmp("eq", 8, at(i + j), c)) for j, c in enumerate(chars)])) if chars else 1
    need = 1 if chars is None else len(chars)
    if is_sym(s.len) and not isinstance(simp(s.len), int) and (need == 1 or kind != "rfind") and 0 < need <= 40:
        r = find_contract(ex, s, kind, pos, [ch] if chars is None else chars)
        if r is not None: return r
    if kind == "find":
        if need == 0:
            return pos if ex.decide(ex.cmp("ule", 64, pos, s.len)) else NPOS
        return find_generic(ex, s, pos, seq, need)
    if kind == "find_first_of": return find_generic(ex, s, pos, one)
    if kind == "find_first_not_of": return find_generic(ex, s, pos, lambda i: ex.bin("xor", 1, one(i), 1))
    L = ex.concretize(s.len, "string length in rfind")
    p = ex.concretize(pos, "rfind start")
    if kind == "rfind":
        if need > L: return NPOS
        i = min(p, L - need)
        while i >= 0:
            if ex.decide(seq(i)): return i
            i -= 1
        return NPOS
    i = min(p, L - 1)
    while i >= 0:
        m = one(i) if kind == "find_last_of" else ex.bin("xor", 1, one(i), 1)
        if ex.decide(m): return i
        i -= 1
    return NPOS
def splice(ex, p, pos, cut, args, t):
    """s[pos .. pos+cut) replaced by what append(args) would append"""
    s = get(ex, p)
    if not ex.decide(ex.cmp("ule", 64, pos, s.len)): throw_std(ex, "_ZTISt12out_of_range")
    cut = umin(ex, cut, sub(ex, s.len, pos))
    tmp = ex.new(32, "tmpstr", "stack"); put(ex, Ptr(tmp, 0), sub_buf(ex, s, 0, pos))
    do_append(ex, [Ptr(tmp, 0)] + args, t)
    nb = get(ex, Ptr(tmp, 0)); e = add(ex, pos, cut)
    append_buf(ex, nb, s, e, sub(ex, s.len, e)); put(ex, p, nb)
def is_iter(t): return t.startswith("__gnu_cxx::__normal_iterator")
@cxx(B + "insert")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar); base = get(ex, a[0])
    if t[0] == "unsigned long": splice(ex, a[0], a[1], 0, a[2:], t[1:]); return a[0]
    if is_iter(t[0]):
        pos = ptr(ex, a[1]).off
        splice(ex, a[0], pos, 0, a[2:], t[1:])
        r = get(ex, a[0])
        return Ptr(r, pos)
    raise Unsupported("string insert %s" % ar)
@cxx(B + "replace")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar)
    if t[0] == "unsigned long" and t[1] == "unsigned long": splice(ex, a[0], a[1], a[2], a[3:], t[2:]); return a[0]
    if is_iter(t[0]) and is_iter(t[1]):
        x, y = ptr(ex, a[1]).off, ptr(ex, a[2]).off
        splice(ex, a[0], x, sub(ex, y, x), a[3:], t[2:]); return a[0]
    raise Unsupported("string replace %s" % ar)
@cxx(B + "erase")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar); s = get(ex, a[0])
    if t and t[0] == "unsigned long":
        pos = a[1]
        if not ex.decide(ex.cmp("ule", 64, pos, s.len)): throw_std(ex, "_ZTISt12out_of_range")
        ln = umin(ex, a[2], sub(ex, s.len, pos))
        nb = sub_buf(ex, s, 0, pos); e = add(ex, pos, ln)
        append_buf(ex, nb, s, e, sub(ex, s.len, e)); put(ex, a[0], nb); return a[0]
    raise Unsupported("string erase %s" % ar)
@cxx(B + "get_allocator")
def _(ex, a, rt_, n, q, ar): return None
@cxx("std::operator+")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar)
    st = lambda x: "basic_string" in x and "view" not in x and "iterator" not in x
    if len(t) != 2 or not (st(t[0]) or st(t[1])): return NOT_HANDLED
    def buf(v, k):
        if st(k): return get(ex, v)
        if k == "char":
            b = mk(ex); ex.buf_set(b, 0, v); b.len = 1; return b
        return sub_buf(ex, v.obj, v.off, cstrlen(ex, v))
    x, y = buf(a[1], t[0]), buf(a[2], t[1])
    r = clone(ex, x); append_buf(ex, r, y, 0, y.len); put(ex, a[0], r); return None
