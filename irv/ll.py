"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for the real code.

Only parsing and data layout live here; the semantics are in exec.py.
"""
import re, struct

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "_sz", "_al", "_offs")
    def __init__(self, k, n=0, el=None, name=None):
        self.k = k; self.n = n; self.el = el; self.name = name
        self._sz = None; self._al = None; self._offs = None
    def __repr__(self):
        if self.k == "i": return "i%d" % self.n
        if self.k == "a": return "[%d x %r]" % (self.n, self.el)
        if self.k == "s": return "{%s}" % ", ".join(map(repr, self.el))
        if self.k == "n": return "%" + self.name
        return self.k

I1 = Ty("i", 1); I8 = Ty("i", 8); I16 = Ty("i", 16); I32 = Ty("i", 32); I64 = Ty("i", 64)
PTR = Ty("ptr"); VOID = Ty("void"); F32 = Ty("f", 32); F64 = Ty("f", 64); F80 = Ty("f", 80)
_INT = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
  (?P<ws>\s+)|
  (?P<cstr>c"[^"]*")|
  (?P<lv>%(?:"[^"]*"|[\w.$-]+))|
  (?P<gv>@(?:"[^"]*"|[\w.$-]+))|
  (?P<com>\$(?:"[^"]*"|[\w.$-]+))|
  (?P<md>!(?:[\w.]+|"[^"]*")?)|
  (?P<attr>\#\d+)|
  (?P<str>"[^"]*")|
  (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[+-]?\d+)?)?))|
  (?P<id>[\w.]+)|
  (?P<dots>\.\.\.)|
  (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s

def tokenize(text):
    out = []; pos = 0; n = len(text)
    m = TOK.match
    while pos < n:
        mm = m(text, pos)
        if not mm:
            raise Unsupported("tokenize: %r" % text[pos:pos+60])
        pos = mm.end()
        k = mm.lastgroup
        if k != "ws":
            out.append((k, mm.group()))
    return out

def c_unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            if s[i+1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(c)); i += 1
    return bytes(out)

PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "returned", "readonly",
               "readnone", "writeonly", "immarg", "swiftself", "nest", "noreturn", "nounwind", "nofree", "writable", "dead_on_unwind"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
CCONV = {"fastcc", "ccc", "coldcc"}

class Parser:
    """Cursor over tokens."""
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("eof", "")
    def next(self):
        t = self.t[self.i]; self.i += 1; return t
    def at(self, v):
        return self.i < len(self.t) and self.t[self.i][1] == v
    def acc(self, v):
        if self.at(v):
            self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v):
            raise Unsupported("parse: expected %r at %r" % (v, self.t[max(0, self.i-6):self.i+6]))

    def type(self):
        k, v = self.next()
        if k == "id":
            if v[0] == "i" and v[1:].isdigit():
                n = int(v[1:]); t = _INT.get(n) or Ty("i", n)
            elif v == "ptr": t = PTR
            elif v == "void": t = VOID
            elif v == "float": t = F32
            elif v == "double": t = F64
            elif v == "x86_fp80": t = F80
            elif v in ("metadata", "label", "token"): t = Ty(v)
            else: raise Unsupported("type %r" % v)
        elif k == "lv":
            t = Ty("n", name=unq(v))
        elif v == "[":
            n = int(self.next()[1]); self.exp("x"); el = self.type(); self.exp("]")
            t = Ty("a", n, el)
        elif v == "{":
            els = []
            while not self.at("}"):
                els.append(self.type()); self.acc(",")
            self.exp("}"); t = Ty("s", 0, els)
        elif v == "<":
            if self.at("{"):
                self.exp("{"); els = []
                while not self.at("}"):
                    els.append(self.type()); self.acc(",")
                self.exp("}"); self.exp(">"); t = Ty("s", 1, els)
            else:
                n = int(self.next()[1]); self.exp("x"); el = self.type(); self.exp(">")
                t = Ty("v", n, el)
        else:
            raise Unsupported("type %r" % (v,))
        # function type: T (args...)
        if self.at("("):
            j = self.i
            self.next()
            depth = 1
            while depth:
                _, v = self.next()
                if v == "(": depth += 1
                elif v == ")": depth -= 1
            t = Ty("fn", el=t)
        return t

    def attrs(self):
        """skip parameter attributes; returns dict of interesting ones"""
        d = {}
        while True:
            k, v = self.peek()
            if k == "id" and v in PARAM_ATTRS:
                self.next()
            elif k == "id" and v in ("byval", "sret", "byref", "inalloca", "preallocated", "elementtype"):
                self.next(); self.exp("("); d[v] = self.type(); self.exp(")")
            elif k == "id" and v == "align":
                self.next()
                if self.acc("("):
                    self.next(); self.exp(")")
                else:
                    self.next()
            elif k == "id" and v in ("dereferenceable", "dereferenceable_or_null", "allocsize", "nofpclass", "range", "captures", "memory"):
                self.next(); self.exp("(")
                while not self.acc(")"): self.next()
            elif k == "attr" or (k == "str"):
                self.next()
                if self.acc("="): self.next()
            else:
                return d

    def const(self, ty):
        """constant or local operand value -> ('c', v) etc.  Returned operand forms:
           ('r', name) local register; ('k', pyvalue) constant"""
        k, v = self.next()
        if k == "lv": return ("r", unq(v))
        if k == "gv": return ("g", unq(v))
        if k == "num":
            if ty.k == "f":
                return ("k", parse_float(v, ty))
            return ("k", int(v) & ((1 << ty.n) - 1))
        if k == "id":
            if v == "true": return ("k", 1)
            if v == "false": return ("k", 0)
            if v == "null": return ("null",)
            if v in ("undef", "poison"): return ("undef",)
            if v == "zeroinitializer": return ("zero", ty)
            if v == "none": return ("undef",)
            if v in ("getelementptr",):
                inb = False
                while self.peek()[1] in ("inbounds", "inrange"):
                    self.next()
                self.exp("(")
                bt = self.type(); self.exp(",")
                pt = self.type(); base = self.const(pt)
                idx = []
                while self.acc(","):
                    self.acc("inrange")
                    it = self.type(); idx.append((it, self.const(it)))
                self.exp(")")
                return ("gep", bt, base, idx)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                self.exp("("); ft = self.type(); val = self.const(ft); self.exp("to"); tt = self.type(); self.exp(")")
                return ("cast", v, ft, val, tt)
            if v in ("add", "sub", "mul", "and", "or", "xor", "shl"):
                while self.peek()[1] in ("nuw", "nsw"): self.next()
                self.exp("("); t1 = self.type(); a = self.const(t1); self.exp(","); t2 = self.type(); b = self.const(t2); self.exp(")")
                return ("bin", v, t1, a, b)
            if v == "blockaddress":
                raise Unsupported("blockaddress")
            if v in ("dso_local_equivalent", "no_cfi"):
                return self.const(ty)
        if k == "cstr":
            return ("bytes", c_unescape(v[2:-1]))
        if v == "{" or v == "[" or v == "<":
            packed = False
            if v == "<" and self.at("{"):
                self.next(); packed = True
                close = "}"
            else:
                close = {"{": "}", "[": "]", "<": ">"}[v]
            els = []
            while not self.at(close):
                t = self.type(); els.append((t, self.const(t))); self.acc(",")
            self.exp(close)
            if packed: self.exp(">")
            return ("agg", els)
        raise Unsupported("const %r" % ((k, v),))

    def typed(self):
        t = self.type()
        a = self.attrs()
        return t, self.const(t), a

def parse_float(v, ty):
    if v.startswith("0x"):
        h = v[2:]
        if h[0] in "KLMHR":
            if h[0] == "K":  # x86_fp80
                raw = int(h[1:], 16)
                sign = raw >> 79; e = (raw >> 64) & 0x7fff; m = raw & ((1 << 64) - 1)
                if e == 0 and m == 0: return -0.0 if sign else 0.0
                if e == 0x7fff: return float("inf")
                return (-1) ** sign * (m / 2.0 ** 63) * 2.0 ** (e - 16383)
            raise Unsupported("float const " + v)
        return struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
    return float(v)

class Func:
    __slots__ = ("name", "ret", "params", "attrs", "lines", "blocks", "entry", "defined", "dem", "vararg", "noreturn",
                 "loops", "preds", "local_names", "retattrs")
    def __init__(self):
        self.blocks = None; self.lines = None; self.defined = False; self.dem = None; self.vararg = False
        self.loops = None; self.noreturn = False

class Module:
    def __init__(self, path):
        self.types = {}; self.globals = {}; self.funcs = {}; self.aliases = {}
        self._parse(path)

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while t.k == "n":
            r = self.types.get(t.name)
            if r is None: raise Unsupported("opaque type %s" % t.name)
            t = r
        return t
    def size(self, t):
        if t._sz is None:
            k = t.k
            if k == "i":
                b = (t.n + 7) // 8
                t._sz = b if b in (1, 2, 4, 8) else (16 if b <= 16 and b > 8 else (1 << (b - 1).bit_length()))
            elif k == "ptr": t._sz = 8
            elif k == "f": t._sz = {32: 4, 64: 8, 80: 16}[t.n]
            elif k == "a" or k == "v": t._sz = t.n * self.size(t.el)
            elif k == "s":
                self.offsets(t)
            elif k == "n": t._sz = self.size(self.resolve(t))
            elif k == "void": t._sz = 0
            else: raise Unsupported("size of %r" % t)
        return t._sz
    def align(self, t):
        if t._al is None:
            k = t.k
            if k == "i": t._al = min(16, self.size(t))
            elif k == "ptr": t._al = 8
            elif k == "f": t._al = {32: 4, 64: 8, 80: 16}[t.n]
            elif k == "a" or k == "v": t._al = self.align(t.el)
            elif k == "s": t._al = 1 if t.n else max([self.align(e) for e in t.el] or [1])
            elif k == "n": t._al = self.align(self.resolve(t))
            else: raise Unsupported("align of %r" % t)
        return t._al
    def offsets(self, t):
        t0 = t
        t = self.resolve(t)
        if t._offs is None:
            o = 0; offs = []
            for e in t.el:
                if not t.n:
                    a = self.align(e); o = (o + a - 1) // a * a
                offs.append(o); o += self.size(e)
            if not t.n:
                a = self.align(t); o = (o + a - 1) // a * a
            t._offs = offs; t._sz = o
        return t._offs

    # ------------------------------------------------------------ parsing
    def _parse(self, path):
        lines = open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] in ";!$s^" or l.startswith("attributes") or l.startswith("module asm"):
                i += 1; continue
            if l[0] == "%":
                j = l.index(" = type ")
                name = unq(l[:j]); rest = l[j+8:]
                if rest.strip() != "opaque":
                    p = Parser(self, tokenize(rest)); self.types[name] = p.type()
                i += 1; continue
            if l[0] == "@":
                self._global(l); i += 1; continue
            if l.startswith("declare"):
                f = self._header(l); f.defined = False
                self.funcs.setdefault(f.name, f); i += 1; continue
            if l.startswith("define"):
                f = self._header(l); f.defined = True
                j = i + 1
                while lines[j] != "}": j += 1
                f.lines = lines[i+1:j]
                self.funcs[f.name] = f
                i = j + 1; continue
            i += 1

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = ', l)
        name = unq("@" + m.group(1)); rest = l[m.end():]
        if re.match(r'(?:[\w_]+(?:\([\w]*\))? )*alias ', rest):
            mm = re.search(r'alias .*?(@("[^"]*"|[\w.$-]+))', rest)
            self.aliases[name] = unq(mm.group(1)); return
        mm = re.search(r'(?:^| )(global|constant) ', rest)
        ext = bool(re.search(r'\b(external|extern_weak)\b', rest[:mm.start()+1]))
        self.globals[name] = dict(const=mm.group(1) == "constant", ext=ext, text=rest[mm.end():], parsed=None,
                                  tls="thread_local" in rest[:mm.start()])

    def global_def(self, name):
        g = self.globals[name]
        if g["parsed"] is None:
            p = Parser(self, tokenize(g["text"].split(", comdat")[0].split(", align")[0].split(", section")[0]) if not '"' in g["text"] else tokenize(g["text"]))
            ty = p.type()
            init = None
            if not g["ext"]:
                init = p.const(ty)
            g["parsed"] = (ty, init)
        return g["parsed"]

    HDR = re.compile(r'@("[^"]*"|[\w.$-]+)\(')
    def _header(self, l):
        f = Func()
        m = self.HDR.search(l)
        f.name = unq("@" + m.group(1))
        f.attrs = l
        f.noreturn = False
        f.params = None
        f.ret = None
        return f

    def header(self, f):
        if f.params is not None: return
        l = f.attrs
        m = self.HDR.search(l)
        pre = l[:m.start()]
        toks = tokenize(pre)
        # the return type is the last thing before the name (after linkage words and return attributes)
        p = Parser(self, toks); p.i = 1
        while True:
            k, v = p.peek()
            if k == "id" and v in ("dso_local", "linkonce_odr", "weak_odr", "internal", "private", "external", "hidden", "available_externally",
                                   "linkonce", "weak", "protected", "default", "local_unnamed_addr", "unnamed_addr", "extern_weak") or v in CCONV:
                p.next(); continue
            before = p.i; p.attrs()
            if p.i == before: break
        f.ret = p.type()
        # parameters
        depth = 1; j = m.end(); inq = False
        while depth:
            c = l[j]
            if c == '"': inq = not inq
            elif not inq:
                if c == "(": depth += 1
                elif c == ")": depth -= 1
            j += 1
        p = Parser(self, tokenize(l[m.end():j-1]))
        params = []; cnt = 0
        while p.i < len(p.t):
            if p.peek()[0] == "dots" or p.at("..."):
                f.vararg = True; break
            t = p.type(); a = p.attrs()
            nm = None
            if p.peek()[0] == "lv": nm = unq(p.next()[1])
            if nm is None: nm = str(cnt)
            cnt += 1
            params.append((t, nm, a)); p.acc(",")
        f.params = params

    # ------------------------------------------------------------ bodies
    LABEL = re.compile(r'^("[^"]*"|[\w.$-]+):')
    def body(self, f):
        if f.blocks is not None: return f.blocks
        self.header(f)
        blocks = {}; cur = None; curname = None
        lines = f.lines; i = 0
        # an unnamed entry block gets the next number
        while i < len(lines):
            l = lines[i]
            if not l.strip() or l.lstrip().startswith(";"):
                i += 1; continue
            if l[0] != " ":
                m = self.LABEL.match(l)
                curname = m.group(1)
                if curname[0] == '"': curname = curname[1:-1]
                cur = []; blocks[curname] = cur
                if f.__class__ and len(blocks) == 1: f.entry = curname
                i += 1; continue
            if cur is None:
                curname = str(len([1 for p in f.params if p[1].isdigit()])); cur = []; blocks[curname] = cur; f.entry = curname
            text = l
            # multi-line instructions
            s = l.strip()
            if " switch " in " " + s or s.startswith("switch "):
                if "]" not in s:
                    while "]" not in lines[i]:
                        i += 1; text += " " + lines[i]
            elif "invoke " in s and (s.startswith("invoke ") or re.match(r'%\S+ = invoke ', s) or re.match(r'%"[^"]*" = invoke', s)):
                i += 1; text += " " + lines[i]
            elif "landingpad" in s and re.match(r'%\S+ = landingpad', s):
                while i + 1 < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i+1]):
                    i += 1; text += " " + lines[i]
            cur.append(self._inst(text))
            i += 1
        f.blocks = blocks
        return blocks

    def _inst(self, text):
        # strip trailing metadata/debug
        toks = tokenize(text)
        p = Parser(self, toks)
        dst = None
        if p.peek()[0] == "lv" and p.t[1][1] == "=":
            dst = unq(p.next()[1]); p.next()
        op = p.next()[1]
        if op in ("tail", "musttail", "notail"): op = p.next()[1]
        if op == "alloca":
            p.acc("inalloca")
            t = p.type(); cnt = None
            if p.acc(","):
                if p.at("align"): pass
                else:
                    ct = p.type(); cnt = (ct, p.const(ct))
            return ("alloca", dst, t, cnt)
        if op == "load":
            at = p.acc("atomic"); vol = p.acc("volatile")
            t = p.type(); p.exp(","); p.type(); a = p.const(PTR)
            return ("load", dst, t, a, at)
        if op == "store":
            at = p.acc("atomic"); vol = p.acc("volatile")
            t = p.type(); v = p.const(t); p.exp(","); p.type(); a = p.const(PTR)
            return ("store", dst, t, v, a, at)
        if op == "getelementptr":
            while p.peek()[1] in ("inbounds", "inrange", "nuw", "nusw"): p.next()
            bt = p.type(); p.exp(","); pt = p.type(); base = p.const(pt)
            idx = []
            while p.acc(","):
                if p.peek()[0] == "md": break
                it = p.type(); idx.append((it, p.const(it)))
            return ("gep", dst, bt, base, idx)
        if op in ("call", "invoke"):
            while p.peek()[1] in FMF or p.peek()[1] in CCONV: p.next()
            p.attrs()
            if p.peek()[1] in CCONV: p.next()
            p.attrs()
            rt = p.type()
            if rt.k == "fn": rt = rt.el
            k, v = p.peek()
            if k == "id" and v == "asm":
                return ("asm", dst, text)
            callee = p.const(PTR)
            p.exp("(")
            args = []
            while not p.at(")"):
                t = p.type()
                if t.k == "metadata":
                    # skip metadata argument
                    depth = 0
                    while not ((p.at(",") or p.at(")")) and depth == 0):
                        v2 = p.next()[1]
                        if v2 == "(": depth += 1
                        if v2 == ")": depth -= 1
                    args.append((t, ("undef",), {}))
                else:
                    a = p.attrs(); args.append((t, p.const(t), a))
                p.acc(",")
            p.exp(")")
            normal = unwind = None
            if op == "invoke":
                while not p.at("to"): p.next()
                p.exp("to"); p.exp("label"); normal = unq(p.next()[1])
                p.exp("unwind"); p.exp("label"); unwind = unq(p.next()[1])
            return (op, dst, rt, callee, args, normal, unwind)
        if op == "ret":
            t = p.type()
            return ("ret", None, t, None if t.k == "void" else p.const(t))
        if op == "br":
            if p.acc("label"):
                return ("br", None, unq(p.next()[1]))
            p.type(); c = p.const(I1); p.exp(","); p.exp("label"); a = unq(p.next()[1]); p.exp(","); p.exp("label"); b = unq(p.next()[1])
            return ("cbr", None, c, a, b)
        if op == "switch":
            t = p.type(); v = p.const(t); p.exp(","); p.exp("label"); d = unq(p.next()[1]); p.exp("[")
            cases = []
            while not p.acc("]"):
                ct = p.type(); cv = p.const(ct); p.exp(","); p.exp("label"); cases.append((cv[1], unq(p.next()[1])))
            return ("switch", None, t, v, d, cases)
        if op in ("icmp", "fcmp"):
            while p.peek()[1] in FMF: p.next()
            pred = p.next()[1]; t = p.type(); a = p.const(t); p.exp(","); b = p.const(t)
            return (op, dst, pred, t, a, b)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            flags = set()
            while p.peek()[1] in ("nuw", "nsw", "exact", "disjoint") or p.peek()[1] in FMF:
                flags.add(p.next()[1])
            t = p.type(); a = p.const(t); p.exp(","); b = p.const(t)
            return ("bin", dst, op, t, a, b, flags)
        if op == "fneg":
            while p.peek()[1] in FMF: p.next()
            t = p.type(); a = p.const(t)
            return ("fneg", dst, t, a)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast"):
            while p.peek()[1] in ("nneg", "nuw", "nsw"): p.next()
            ft = p.type(); v = p.const(ft); p.exp("to"); tt = p.type()
            return ("cast", dst, op, ft, v, tt)
        if op == "phi":
            while p.peek()[1] in FMF: p.next()
            t = p.type(); inc = {}
            while True:
                p.exp("["); v = p.const(t); p.exp(","); lb = unq(p.next()[1]); p.exp("]"); inc[lb] = v
                if not p.acc(","): break
                if p.peek()[0] == "md": break
            return ("phi", dst, t, inc)
        if op == "select":
            while p.peek()[1] in FMF: p.next()
            ct = p.type(); c = p.const(ct); p.exp(","); t = p.type(); a = p.const(t); p.exp(","); t2 = p.type(); b = p.const(t2)
            return ("select", dst, c, t, a, b)
        if op == "extractvalue":
            t = p.type(); v = p.const(t); idx = []
            while p.acc(","):
                if p.peek()[0] == "md": break
                idx.append(int(p.next()[1]))
            return ("extractvalue", dst, t, v, idx)
        if op == "insertvalue":
            t = p.type(); v = p.const(t); p.exp(","); et = p.type(); e = p.const(et); idx = []
            while p.acc(","):
                if p.peek()[0] == "md": break
                idx.append(int(p.next()[1]))
            return ("insertvalue", dst, t, v, et, e, idx)
        if op == "landingpad":
            t = p.type(); cleanup = False; clauses = []
            while p.i < len(p.t):
                k, v = p.next()
                if v == "cleanup": cleanup = True
                elif v in ("catch", "filter"):
                    ct = p.type(); clauses.append((v, p.const(ct)))
                else: break
            return ("landingpad", dst, cleanup, clauses)
        if op == "resume":
            t = p.type(); return ("resume", None, p.const(t), t)
        if op == "unreachable":
            return ("unreachable", None)
        if op == "fence":
            return ("nop", None)
        if op == "freeze":
            t = p.type(); return ("freeze", dst, t, p.const(t))
        if op == "cmpxchg":
            p.acc("weak"); p.acc("volatile")
            p.type(); a = p.const(PTR); p.exp(","); t = p.type(); c = p.const(t); p.exp(","); p.type(); n = p.const(t)
            return ("cmpxchg", dst, t, a, c, n)
        if op == "atomicrmw":
            p.acc("volatile"); o = p.next()[1]; p.type(); a = p.const(PTR); p.exp(","); t = p.type(); v = p.const(t)
            return ("atomicrmw", dst, t, o, a, v)
        if op == "va_arg":
            return ("unsup", dst, text)
        return ("unsup", dst, text)
