"""Parser for LLVM textual IR (the subset rustc emits), producing plain Python objects.

Nothing here is specific to the code under test."""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "el", "fs", "packed", "_size", "_al", "_offs")

    def __init__(self, k, w=0, n=0, el=None, fs=None, packed=False):
        self.k, self.w, self.n, self.el, self.fs, self.packed = k, w, n, el, fs, packed
        self._size = self._al = self._offs = None

    def align(self):
        if self._al is None:
            k = self.k
            if k == "int":
                b = (self.w + 7) // 8
                a = 1
                while a < b and a < 16:
                    a *= 2
                self._al = a
            elif k == "ptr":
                self._al = 8
            elif k in ("arr", "vec"):
                self._al = self.el.align()
            elif k == "st":
                self._al = 1 if self.packed else max([f.align() for f in self.fs] or [1])
            else:
                self._al = 1
        return self._al

    def size(self):
        """allocation size in bytes"""
        if self._size is None:
            k = self.k
            if k == "int":
                b = (self.w + 7) // 8
                a = self.align()
                self._size = (b + a - 1) // a * a
            elif k == "ptr":
                self._size = 8
            elif k in ("arr", "vec"):
                self._size = self.n * self.el.size()
            elif k == "st":
                self.offsets()
            elif k == "float":
                self._size = self.w // 8
            else:
                self._size = 0
        return self._size

    def offsets(self):
        if self._offs is None:
            o = 0
            offs = []
            for f in self.fs:
                a = 1 if self.packed else f.align()
                o = (o + a - 1) // a * a
                offs.append(o)
                o += f.size()
            a = self.align()
            self._size = (o + a - 1) // a * a
            self._offs = offs
        return self._offs

    def __repr__(self):
        return {"int": "i%d" % self.w, "ptr": "ptr"}.get(self.k, self.k)


_ints = {}


def ity(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty("int", w=w)
    return t


PTR = Ty("ptr", w=64)
VOID = Ty("void")


# ---------------------------------------------------------------- tokens
TOK = re.compile(
    r'\s+|(c"(?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*")'
    r'|([@%$](?:"[^"]*"|[-A-Za-z0-9_.$]+))'
    r'|("(?:[^"\\]|\\.)*")'
    r"|(-?0x[0-9A-Fa-fKMLHR]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)"
    r"|(![A-Za-z0-9_.]*)"
    r"|(#\d+)"
    r"|([A-Za-z_][A-Za-z0-9_.$]*)"
    r"|(\.\.\.|<\{|\}>|[(){}\[\]<>,=*:|])"
)


def tokenize(s):
    out = []
    pos, n = 0, len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if m is None:
            if s[pos] == ";":
                break
            raise IRError("cannot tokenize %r" % s[pos:pos + 60])
        pos = m.end()
        t = m.group().strip()
        if t:
            out.append(t)
    return out


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %s got %s in %s" % (x, y, " ".join(self.t)[:200]))

    # -- types
    def type(self):
        t = self.next()
        if t[0] == "i" and t[1:].isdigit():
            r = ity(int(t[1:]))
        elif t == "ptr":
            r = PTR
        elif t == "void":
            r = VOID
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect("]")
            r = Ty("arr", n=n, el=el)
        elif t == "<{" or t == "{":
            close = "}>" if t == "<{" else "}"
            fs = []
            while not self.eat(close):
                fs.append(self.type())
                self.eat(",")
            r = Ty("st", fs=fs, packed=t == "<{")
        elif t == "<":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect(">")
            r = Ty("vec", n=n, el=el)
        elif t[0] == "%":
            r = self.m.named_type(t)
        elif t in ("float", "double", "half"):
            r = Ty("float", w={"half": 16, "float": 32, "double": 64}[t])
        elif t in ("metadata", "token", "label", "x86_fp80", "fp128", "bfloat"):
            r = Ty(t)
        else:
            raise IRError("type? %s in %s" % (t, " ".join(self.t)[:200]))
        if self.peek() == "addrspace":
            self.next(); self.expect("("); self.next(); self.expect(")")
        if self.peek() == "(" and r.k in ("void",):
            pass
        return r

    # -- constants / operands (type already known)
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == "%":
            return ("r", t[1:])
        if c == "@":
            return ("g", t[1:].strip('"'))
        if c == "c" and t[1:2] == '"':
            return ("bytes", _cstr(t[2:-1]))
        if c.isdigit() or c == "-":
            if ty.k == "int":
                return ("i", int(t) & ((1 << ty.w) - 1))
            return ("undef", ty)
        if t == "true":
            return ("i", 1)
        if t == "false":
            return ("i", 0)
        if t == "null":
            return ("i", 0)
        if t in ("undef", "poison"):
            return ("undef", ty)
        if t == "zeroinitializer":
            return ("zero", ty)
        if t in ("{", "<{", "[", "<"):
            close = {"{": "}", "<{": "}>", "[": "]", "<": ">"}[t]
            if t == "<" and self.peek() == "{":
                pass
            vs = []
            while not self.eat(close):
                et = self.type()
                vs.append((et, self.value(et)))
                self.eat(",")
            return ("agg", ty, vs)
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                self.next(); self.expect("(")
                while self.next() != ")":
                    pass
            self.expect("(")
            bt = self.type()
            ops = []
            while self.eat(","):
                et = self.type()
                ops.append((et, self.value(et)))
            self.expect(")")
            return ("cgep", bt, ops)
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "addrspacecast", "ptrtoaddr"):
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect("to")
            tt = self.type()
            self.expect(")")
            return ("ccast", t, et, v, tt)
        if t in ("add", "sub", "mul", "xor", "and", "or"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t1 = self.type(); a = self.value(t1); self.expect(",")
            t2 = self.type(); b = self.value(t2); self.expect(")")
            return ("cbin", t, t1, a, b)
        if t == "splat":
            self.expect("(")
            et = self.type(); v = self.value(et)
            self.expect(")")
            return ("agg", ty, [(et, v)] * ty.n)
        if t == "none":
            return ("undef", ty)
        if t == "blockaddress" or t == "dso_local_equivalent" or t == "no_cfi":
            raise IRError("unsupported constant " + t)
        raise IRError("value? %s in %s" % (t, " ".join(self.t)[:300]))

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            t = self.next()
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1

    def skip_attrs(self):
        """skip parameter / return attributes"""
        while True:
            t = self.peek()
            if t is None:
                return
            if t in _TYPE_START or t[0] in "%@<[{(":
                if not (t[0] == "i" and not t[1:].isdigit()):
                    return
            if t in _ATTR_PAREN and self.i + 1 < len(self.t) and self.t[self.i + 1] == "(":
                self.next()
                self.skip_paren()
                continue
            if t in _ATTRS:
                self.next()
                if t == "align" and self.peek() and self.peek().isdigit():
                    self.next()
                continue
            if t.startswith('"'):
                self.next()
                if self.eat("="):
                    self.next()
                continue
            return


_TYPE_START = {"ptr", "void", "float", "double", "half", "metadata", "label"}
_ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "captures", "range", "sret", "byval", "align",
               "memory", "allocsize", "nofpclass", "initializes", "elementtype", "inalloca", "byref", "alignstack",
               "allockind", "vscale_range", "uwtable", "dead_on_return", "preallocated"}
_ATTRS = set("""noundef nonnull noalias nocapture readonly readnone writeonly zeroext signext inreg align nofree
nest returned immarg swiftself swifterror allocptr allocalign writable dead_on_unwind nosync nounwind willreturn
fastcc ccc coldcc tailcc preserve_mostcc preserve_allcc cold hot local_unnamed_addr unnamed_addr dso_local internal private
hidden protected default external weak linkonce linkonce_odr weak_odr available_externally dllexport dllimport
noreturn inlinehint alwaysinline noinline speculatable uwtable fast nnan ninf nsz arcp contract afn reassoc
range dead_on_return""".split())


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == "\\\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "x")

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x

    def __repr__(self):
        return "%s=%s %s %s %s" % (self.dst, self.op, self.ty, self.a, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []


class Function:
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params, self.attrs = name, ret, params, attrs
        self.blocks = {}
        self.order = []
        self.noreturn = False


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.attrgroups = {}
        self.aliases = {}
        self.parse(text)

    def named_type(self, t):
        if t not in self.types:
            d = self.typedefs.get(t)
            if d is None:
                raise IRError("unknown type " + t)
            p = P(self, tokenize(d))
            if p.peek() == "opaque":
                self.types[t] = Ty("opaque")
            else:
                self.types[t] = p.type()
        return self.types[t]

    def parse(self, text):
        lines = text.split("\n")
        for l in lines:
            if l.startswith("attributes #"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                self.attrgroups[m.group(1)] = m.group(2)
            elif l.startswith("%") and " = type " in l:
                n, d = l.split(" = type ", 1)
                self.typedefs[n] = d
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("@"):
                self._global(l)
            elif l.startswith("declare "):
                self._header(l[8:], True)
            elif l.startswith("define "):
                f = self._header(l[7:], False)
                i += 1
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                f.body = body
            i += 1

    def _global(self, l):
        l = _strip_md(l)
        m = re.match(r'@("[^"]*"|[-A-Za-z0-9_.$]+) = (.*)$', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        if re.search(r"(^|\s)alias\s", rest):
            am = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)', rest)
            self.aliases[name] = am.group(1).strip('"')
            return
        if rest.startswith("appending"):
            return
        m = re.search(r"(^|\s)(constant|global)\s", rest)
        const = m.group(2) == "constant"
        external = " external " in " " + rest[:m.start() + 1] + " "
        self.globals[name] = [const, rest[m.end():], external, None]

    def global_init(self, name):
        g = self.globals[name]
        if g[3] is None:
            p = P(self, tokenize(g[1]))
            ty = p.type()
            v = None
            if not g[2] and p.peek() is not None and p.peek() != ",":
                v = p.value(ty)
            g[3] = (ty, v)
        return g[3]

    def _header(self, l, decl):
        l = _strip_md(l)
        m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', l)
        name = m.group(1).strip('"')
        pre = P(self, tokenize(l[:m.start()]))
        # linkage etc.
        while True:
            before = pre.i
            pre.skip_attrs()
            if pre.i == before:
                break
        try:
            ret = pre.type()
        except Exception:
            ret = None
        p = P(self, tokenize(l[m.end() - 1:]))
        p.expect("(")
        params = []
        while not p.eat(")"):
            if p.eat("..."):
                continue
            ty = p.type()
            p.skip_attrs()
            nm = None
            if p.peek() and p.peek()[0] == "%":
                nm = p.next()[1:]
            params.append((ty, nm))
            p.eat(",")
        attrs = p.t[p.i:]
        f = Function(name, ret, params, attrs)
        for a in attrs:
            if a == "noreturn" or (a[0] == "#" and re.search(r"\bnoreturn\b", self.attrgroups.get(a, ""))):
                f.noreturn = True
        if decl:
            self.decls[name] = f
        else:
            self.funcs[name] = f
        return f

    def body(self, f):
        if f.order:
            return f
        cur = None
        lines = f.body
        i = 0
        # unnamed parameters are numbered
        k = 0
        for j, (ty, nm) in enumerate(f.params):
            if nm is None:
                f.params[j] = (ty, str(k))
                k += 1
            elif nm.isdigit():
                k = int(nm) + 1
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s[0] == ";":
                continue
            if not l.startswith(" "):
                m = re.match(r'("[^"]*"|[-A-Za-z0-9_.$]+):', l)
                if m:
                    cur = Block(m.group(1).strip('"'))
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                    continue
            if cur is None:
                cur = Block(str(k))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if s.startswith("switch ") and "]" not in s:
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif s.startswith("invoke ") or " = invoke " in s:
                if " to label " not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif "landingpad" in s:
                while i < len(lines) and lines[i].strip().split(" ")[0] in ("cleanup", "catch", "filter"):
                    i += 1
            if s.startswith("#dbg_"):
                continue
            ins = self._instr(_strip_md(s))
            if ins is not None:
                cur.ins.append(ins)
        return f

    def _instr(self, s):
        dst = None
        m = re.match(r'%("[^"]*"|[-A-Za-z0-9_.$]+) = (.*)$', s)
        if m:
            dst, s = m.group(1), m.group(2)
            dst = dst
        op = s.split(" ", 1)[0]
        if op in ("tail", "musttail", "notail"):
            s = s.split(" ", 1)[1]
            op = "call"
        p = P(self, tokenize(s))
        p.next()
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return Instr(op, dst, ty, [a, b])
        if op == "icmp":
            if p.peek() == "samesign":
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return Instr("icmp", dst, ty, [a, b], pred)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast", "ptrtoaddr"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            ty = p.type()
            a = p.value(ty)
            if op == "freeze":
                return Instr(op, dst, ty, [a], ty)
            p.expect("to")
            return Instr(op, dst, p.type(), [a], ty)
        if op == "load":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ty = p.type()
            p.expect(",")
            pt = p.type()
            return Instr(op, dst, ty, [p.value(pt)])
        if op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            pt = p.type()
            return Instr(op, None, ty, [v, p.value(pt)])
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            bt = p.type()
            ops = []
            while p.eat(","):
                et = p.type()
                ops.append((et, p.value(et)))
            return Instr(op, dst, PTR, [v for _, v in ops], (bt, [t for t, _ in ops]))
        if op == "alloca":
            ty = p.type()
            cnt = 1
            if p.eat(","):
                if p.peek() != "align":
                    et = p.type()
                    v = p.value(et)
                    if v[0] != "i":
                        raise IRError("dynamic alloca")
                    cnt = v[1]
            return Instr(op, dst, PTR, [], ty.size() * cnt)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Instr("br", None, VOID, [], [p.next()[1:].strip('"')])
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            p.expect("label")
            a = p.next()[1:].strip('"')
            p.expect(",")
            p.expect("label")
            b = p.next()[1:].strip('"')
            return Instr("cbr", None, VOID, [v], [a, b])
        if op == "switch":
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            p.expect("label")
            d = p.next()[1:].strip('"')
            p.expect("[")
            cases = []
            while not p.eat("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv[1], p.next()[1:].strip('"')))
            return Instr("switch", None, ty, [v], (d, cases))
        if op == "ret":
            ty = p.type()
            if ty.k == "void":
                return Instr("ret", None, ty, [])
            return Instr("ret", None, ty, [p.value(ty)])
        if op == "unreachable":
            return Instr("unreachable", None, VOID, [])
        if op == "phi":
            while p.peek() in _ATTRS:
                p.next()
            ty = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(ty)
                p.expect(",")
                inc.append((v, p.next()[1:].strip('"')))
                p.expect("]")
                if not p.eat(","):
                    break
            return Instr("phi", dst, ty, [], inc)
        if op == "select":
            while p.peek() in _ATTRS:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            t2 = p.type()
            b = p.value(t2)
            return Instr("select", dst, ty, [c, a, b])
        if op in ("call", "invoke"):
            p.skip_attrs()
            while p.peek() in ("fastcc", "ccc", "coldcc", "cc", "tailcc"):
                p.next()
            p.skip_attrs()
            ret = p.type()
            if p.peek() == "(":  # function type spelled out
                p.skip_paren()
            callee = p.next()
            if callee == "asm":
                return Instr("asm", dst, ret, [])
            p.expect("(")
            args, tys = [], []
            while not p.eat(")"):
                ty = p.type()
                if ty.k == "metadata":
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        t = p.next()
                        d += (t == "(") - (t == ")")
                    p.eat(",")
                    continue
                p.skip_attrs()
                args.append(p.value(ty))
                tys.append(ty)
                p.eat(",")
            noret = False
            normal = None
            while p.peek() is not None:
                t = p.next()
                if t == "noreturn" or (t[0] == "#" and re.search(r"\bnoreturn\b", self.attrgroups.get(t, ""))):
                    noret = True
                if t == "to" and p.peek() == "label":
                    p.next()
                    normal = p.next()[1:].strip('"')
                    break
            cal = ("g", callee[1:].strip('"')) if callee[0] == "@" else ("r", callee[1:])
            return Instr("call", dst, ret, args, (cal, tys, noret, normal))
        if op == "extractvalue":
            ty = p.type()
            v = p.value(ty)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return Instr(op, dst, ty, [v], idx)
        if op == "insertvalue":
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            et = p.type()
            e = p.value(et)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return Instr(op, dst, ty, [v, e], idx)
        if op == "extractelement":
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            it = p.type()
            iv = p.value(it)
            return Instr(op, dst, ty, [v, iv])
        if op == "insertelement":
            ty = p.type()
            v = p.value(ty)
            p.expect(",")
            et = p.type()
            e = p.value(et)
            p.expect(",")
            it = p.type()
            iv = p.value(it)
            return Instr(op, dst, ty, [v, e, iv])
        return Instr("unsupported", dst, None, [], s[:120])


def _strip_md(s):
    """drops trailing metadata (!...) attachments, which start outside any bracket"""
    if " !" not in s:
        return s
    d = 0
    q = False
    for i, c in enumerate(s):
        if q:
            if c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == "!" and d == 0 and s[i - 1] == " ":
            return s[:i].rstrip().rstrip(",")
    return s
