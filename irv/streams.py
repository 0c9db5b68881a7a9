"""Contracts of std::ostringstream (a byte buffer that is appended to) and of number parsing and formatting."""
import z3, re
import models, strings
from models import cxx, rt, NOT_HANDLED, BYRX, RUNTIME, throw_std
from strings import get, put, mk, clone, append_buf, cstrlen, add, sub, touch, split_args
from execu import Ptr, NULL, UNDEF, PathEnd, simp, tob, bv, is_sym, sgn
from ll import Unsupported, I8, I64, PTR

OS = "std::__cxx11::basic_ostringstream::"
@cxx(OS + "basic_ostringstream")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar)
    if t and "basic_string" in t[0]: put(ex, a[0], clone(ex, get(ex, a[1])))
    else: put(ex, a[0], mk(ex, name="oss"))
    return None
@cxx(OS + "~basic_ostringstream")
def _(ex, a, rt_, n, q, ar):
    ex.ghost.pop((a[0].obj.id, a[0].off), None); return None
@cxx(OS + "str")
def _(ex, a, rt_, n, q, ar):
    t = split_args(ar)
    if t and "basic_string" in t[0]: put(ex, a[0], clone(ex, get(ex, a[1]))); return None
    put(ex, a[0], clone(ex, get(ex, a[1]))); return None
def stream_of(ex, p):
    if p is UNDEF or p.obj is None: return None
    return ex.ghost.get((p.obj.id, p.off))
def digits(ex, v, bits, signed, base=10):
    """the decimal digits of v, most significant first, as values or 8-bit terms"""
    if isinstance(v, int):
        x = sgn(v, bits) if signed else v
        return [ord(c) for c in str(x)]
    out = []
    if signed:
        if ex.decide(v < 0): out.append(45); v = simp(-v)
        if isinstance(v, int): return out + [ord(c) for c in str(v)]
    k = 1
    while 10 ** k < (1 << bits) and ex.decide(z3.UGE(v, 10 ** k)): k += 1
    for i in range(k - 1, -1, -1):
        d = z3.URem(z3.UDiv(v, z3.BitVecVal(10 ** i, v.size())), z3.BitVecVal(10, v.size())) if k > 1 else v
        out.append(simp(z3.Extract(7, 0, d) + 48) if v.size() > 8 else simp(d + 48))
    return out
def emit(ex, p, chars):
    s = stream_of(ex, p); touch(ex, p, s)
    for c in chars:
        ex.buf_set(s, s.len, c); s.len = add(ex, s.len, 1)
INTS = {"short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0)}
def out(ex, a, rt_, n, q, ar):
    s = stream_of(ex, a[0])
    if s is None: return NOT_HANDLED
    t = split_args(ar)
    t = t[1:] if q == "std::operator<<" else t
    k = t[0] if t else ""
    if k in ("char", "unsigned char", "signed char"): emit(ex, a[0], [a[1]])
    elif k == "char const*":
        touch(ex, a[0], s); append_buf(ex, s, a[1].obj, a[1].off, cstrlen(ex, a[1]))
    elif "basic_string" in k and "view" not in k:
        touch(ex, a[0], s); o = get(ex, a[1]); append_buf(ex, s, o, 0, o.len)
    elif k in INTS:
        b, sg = INTS[k]; emit(ex, a[0], digits(ex, a[1], b, sg))
    elif k == "bool": emit(ex, a[0], [48 + a[1]] if isinstance(a[1], int) else [simp(z3.If(tob(a[1]), z3.BitVecVal(49, 8), z3.BitVecVal(48, 8)))])
    elif "(*)" in k or "basic_ostream" in k:
        f = a[1].obj.fn if a[1].obj is not None else ""
        if "endl" in f: emit(ex, a[0], [10])
        elif "flush" not in f: raise Unsupported("manipulator " + f)
    else: raise Unsupported("operator<< (%s) on a string stream" % ar)
    return a[0]
cxx("std::operator<<")(out)
cxx("std::ostream::operator<<", "std::basic_ostream::operator<<")(out)
@cxx("std::ostream::write", "std::basic_ostream::write")
def _(ex, a, rt_, n, q, ar):
    s = stream_of(ex, a[0])
    if s is None: return NOT_HANDLED
    touch(ex, a[0], s); append_buf(ex, s, a[1].obj, a[1].off, a[2]); return a[0]

def digit(ex, c, base):
    """value of c as a digit (asks which range it is in), or None"""
    if isinstance(c, int):
        v = c - 48 if 48 <= c <= 57 else (c | 32) - 87 if 65 <= c <= 90 or 97 <= c <= 122 else 99
        return v if v < base else None
    z = lambda v: z3.ZeroExt(56, v)
    low = models.rng(c, 48, min(57, 47 + base))
    if base <= 10:
        return simp(z(c - 48)) if ex.decide(low) else None
    up, lo = models.rng(c, 65, 54 + base), models.rng(c, 97, 86 + base)
    if not ex.decide(z3.Or(low, up, lo)): return None
    return simp(z(z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.UGE(c, 97), c - 87, c - 55))))
def parse_int(ex, at, base, limit=40):
    """(value as 64 bits, number of characters read, number of digits); `at` gives characters, 0 ends"""
    i = 0
    while ex.decide(anyspace(ex, at(i))): i += 1
    neg = False
    if ex.decide(ex.cmp("eq", 8, at(i), 45)): neg = True; i += 1
    elif ex.decide(ex.cmp("eq", 8, at(i), 43)): i += 1
    if base == 16 and ex.decide(ex.cmp("eq", 8, at(i), 48)) and ex.decide(ex.cmp("eq", 8, ex.bin("or", 8, at(i + 1), 32), 120)): raise Unsupported("0x")
    v = 0; k = 0
    while True:
        d = digit(ex, at(i), base)
        if d is None: break
        v = ex.bin("add", 64, ex.bin("mul", 64, v, base), d); i += 1; k += 1
        if k > limit: raise Unsupported("a number of more than %d digits" % limit)
    if neg: v = ex.bin("sub", 64, 0, v)
    return v, i, k
def anyspace(ex, c):
    r = models.anyof(models.rng(c, 9, 13), models.rng(c, 32, 32))
    return r
def trunc32(v): return v & 0xffffffff if isinstance(v, int) else simp(z3.Extract(31, 0, v))
@rt("atoi", "__isoc23_atoi")
def _(ex, a, rt_, n):
    v, i, k = parse_int(ex, lambda i: ex.load(Ptr(a[0].obj, ex.bin("add", 64, a[0].off, i)), I8), 10, 18)
    return trunc32(v)
@rt("strtol", "strtoul", "strtoll", "strtoull", "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll", "__isoc23_strtoull")
def _(ex, a, rt_, n):
    base = ex.concretize(a[2], "base")
    if base not in (10, 16, 8): raise Unsupported("strtol base %d" % base)
    v, i, k = parse_int(ex, lambda i: ex.load(Ptr(a[0].obj, ex.bin("add", 64, a[0].off, i)), I8), base, 18 if base == 10 else 15)
    if a[1].obj is not None: ex.store(a[1], PTR, Ptr(a[0].obj, ex.bin("add", 64, a[0].off, i if k else 0)))
    return v
@cxx("current::strings::Printf")
def _(ex, a, rt_, n, q, ar):
    """the C library formats: only conversions without a field that depends on the value are known here"""
    f = ex.cstring(a[1]); out = []; i = 0; k = 2
    while i < len(f):
        c = f[i]
        if c != "%": out.append(ord(c)); i += 1; continue
        m = re.match(r'%(%|s|02X|02x|c|d|u|lu|ld)', f[i:])
        if not m: return NOT_HANDLED
        i += m.end(); w = m.group(1)
        if w == "%": out.append(37)
        elif w == "s": out.append(a[k]); k += 1
        elif w == "c": out.append(a[k] & 255 if isinstance(a[k], int) else simp(z3.Extract(7, 0, a[k]))); k += 1
        elif w in ("02X", "02x"):
            v = a[k]; k += 1; nd = 2
            while nd < 8 and ex.decide(ex.cmp("uge", 32, v, 1 << (4 * nd))): nd += 1
            for j in range(nd - 1, -1, -1):
                d = ex.bin("and", 32, ex.bin("lshr", 32, v, 4 * j), 15)
                if isinstance(d, int): out.append(ord("%X" % d if w == "02X" else "%x" % d))
                else:
                    d8 = z3.Extract(7, 0, d); out.append(simp(z3.If(z3.ULT(d8, 10), d8 + 48, d8 + (55 if w == "02X" else 87))))
        else: out += digits(ex, a[k], 64 if "l" in w else 32, "d" in w); k += 1
    b = mk(ex)
    for c in out:
        if isinstance(c, Ptr): append_buf(ex, b, c.obj, c.off, cstrlen(ex, c))
        else: ex.buf_set(b, b.len, c); b.len = add(ex, b.len, 1)
    put(ex, a[0], b); return None
