"""Symbolic executor for LLVM IR (module from llir.py, values from sym.py).

States fork on undecided branches; the two sides are merged again at the branch's immediate post-dominator when they
agree on everything that steers control (64-bit concrete values, shapes of memory)."""
import re
import sys
from engine.llir import Module, ity, PTR, Ty, IRError
from engine import sym
from engine.sym import (Lin, F, Ctx, Dead, l_add, l_sub, l_mul, l_scale, l_ite, l_bool, l_same, l_sdivpos, f_le, f_lt,
                        f_eq, f_eq0, f_le0, f_and, f_or, f_not, f_xor, f_iff, STATS, SOLVER)

sys.setrecursionlimit(200000)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class EngineError(Exception):
    pass


class Unsupported(EngineError):
    pass


class MemError(Exception):
    """access outside any object (undefined behaviour)"""


class Fork(Exception):
    """the current instruction needs a formula decided or a form made concrete; it is re-executed afterwards"""

    def __init__(self, f=None, lin=None):
        self.f, self.lin = f, lin


class PanicEnd(Exception):
    def __init__(self, what):
        self.what = what


class Obj:
    __slots__ = ("size", "cells", "tok", "const", "zero")

    def __init__(self, size, tok, const=False, zero=False):
        self.size = size
        self.cells = {}
        self.tok = tok
        self.const = const
        self.zero = zero      # unwritten bytes read as zero


class Frame:
    __slots__ = ("fn", "blk", "ip", "R", "prev", "dst", "allocas")

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev, f.dst = self.fn, self.blk, self.ip, self.prev, self.dst
        f.R = self.R[:]
        f.allocas = self.allocas[:]
        return f


class State:
    __slots__ = ("frames", "mem", "ctx", "tok", "next", "status", "ret", "why", "steps", "globs", "log")

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.ctx = self.ctx.copy()
        s.next = self.next
        s.log = self.log
        s.status, s.ret, s.why, s.steps = self.status, self.ret, self.why, self.steps
        s.tok = object()
        self.tok = object()
        return s


class Blk:
    __slots__ = ("name", "phis", "ops", "terms", "term", "idx", "livein")
    # ops: list of segments; each segment = (list of closures); terms: what ends each segment


class Fn:
    pass


def result_type(ins):
    if ins.op == "icmp":
        return ity(1)
    if ins.op == "extractvalue":
        t = ins.ty
        for i in ins.x:
            t = t.fs[i] if t.k == "st" else t.el
        return t
    return ins.ty


OOB = 1 << 32
STACK0 = 1 << 20
HEAP0 = 1 << 28
LOW = OOB - 1
PANIC_RE = re.compile(r"panic|_fail|unwrap_failed|expect_failed|handle_alloc_error|handle_error|capacity_overflow|process5abort|unreachable_display|assert_failed")


class Machine:
    def __init__(self, ll_text):
        self.mod = Module(ll_text)
        self.gaddr = {}
        self.gobjs = {}
        self.gnext = 1
        self.faddr = {}
        self.fbyaddr = {}
        self.fns = {}
        self.steps = 0
        self.forks = 0
        self.merges = 0
        self.apart = False   # keep states apart rather than make their numbers choices
        self.soft = False    # also merge inside loops that have exits in the middle
        self.used = set()
        self.max_steps = 3_000_000
        self.max_paths = 200000

    # ------------------------------------------------------------ globals
    def global_addr(self, name):
        name = self.mod.aliases.get(name, name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.globals:
            g = self.mod.globals[name]
            ty, init = self.mod.global_init(name)
            i = self.gnext
            self.gnext += 1
            a = self.gaddr[name] = i << 32
            o = Obj(ty.size(), None, const=g[0], zero=False)
            self.gobjs[i] = o
            if init is not None:
                self.fill(o, 0, ty, init)
            return a
        if name in self.mod.funcs or name in self.mod.decls:
            i = (1 << 24) + len(self.faddr)
            a = self.gaddr[name] = i << 32
            self.faddr[name] = a
            self.fbyaddr[a] = name
            return a
        raise Unsupported("global " + name)

    def fill(self, o, off, ty, v):
        k = v[0]
        if k == "zero":
            for q, (s) in self.flat(ty, off):
                o.cells[q] = (s, 0)
            return
        if k == "bytes":
            for j, b in enumerate(v[1]):
                o.cells[off + j] = (1, b)
            return
        if k == "agg":
            if ty.k in ("arr", "vec"):
                es = ty.el.size()
                for j, (et, ev) in enumerate(v[2]):
                    self.fill(o, off + j * es, et, ev)
            else:
                for fo, (et, ev) in zip(ty.offsets(), v[2]):
                    self.fill(o, off + fo, et, ev)
            return
        if k == "undef":
            return
        if ty.size():
            o.cells[off] = (ty.size(), self.const(ty, v))

    def flat(self, ty, off):
        if ty.k in ("arr", "vec"):
            es = ty.el.size()
            for j in range(ty.n):
                yield from self.flat(ty.el, off + j * es)
        elif ty.k == "st":
            for fo, ft in zip(ty.offsets(), ty.fs):
                yield from self.flat(ft, off + fo)
        elif ty.size():
            yield (off, ty.size())

    def const(self, ty, v):
        k = v[0]
        if k == "i":
            return v[1]
        if k == "undef":
            if ty.k == "st":
                return tuple(self.const(t, ("undef", t)) for t in ty.fs)
            if ty.k in ("arr", "vec"):
                return tuple(self.const(ty.el, ("undef", ty.el)) for _ in range(ty.n))
            return UNDEF
        if k == "zero":
            if ty.k == "st":
                return tuple(self.const(t, ("zero", t)) for t in ty.fs)
            if ty.k in ("arr", "vec"):
                return tuple(self.const(ty.el, ("zero", ty.el)) for _ in range(ty.n))
            return 0
        if k == "g":
            return self.global_addr(v[1])
        if k == "agg":
            return tuple(self.const(t, x) for t, x in v[2])
        if k == "bytes":
            return tuple(v[1])
        if k == "cgep":
            bt, ops = v[1], v[2]
            a = self.const(*ops[0])
            cur = bt
            for n, (t, x) in enumerate(ops[1:]):
                iv = self.const(t, x)
                if iv >> (t.w - 1):
                    iv -= 1 << t.w
                if n == 0:
                    a += iv * bt.size()
                elif cur.k in ("arr", "vec"):
                    cur = cur.el
                    a += iv * cur.size()
                else:
                    a += cur.offsets()[iv]
                    cur = cur.fs[iv]
            return a & ((1 << 64) - 1)
        if k == "ccast":
            x = self.const(v[2], v[3])
            return x & ((1 << (v[4].w or 64)) - 1)
        if k == "cbin":
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            m = (1 << v[2].w) - 1
            return {"add": a + b, "sub": a - b, "mul": a * b, "xor": a ^ b, "and": a & b, "or": a | b}[v[1]] & m
        raise Unsupported("constant " + k)

    # ------------------------------------------------------------ decoding
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = self.decode(name)
        return f

    def decode(self, name):
        src = self.mod.body(self.mod.funcs[name])
        fn = Fn()
        fn.name = name
        fn.src = src
        slots = {}
        tmpl = []
        fn.ty = {}

        def slot(nm):
            i = slots.get(nm)
            if i is None:
                i = slots[nm] = len(tmpl)
                tmpl.append(UNDEF)
            return i

        consts = {}

        def operand(ty, v):
            if v[0] == "r":
                return slot(v[1])
            val = self.const(ty, v)
            key = (ty.k, ty.w, repr(v)) if v[0] in ("i", "g") else (id(v),)
            i = consts.get(key)
            if i is None:
                i = consts[key] = len(tmpl)
                tmpl.append(val)
            return i

        fn.params = [slot(nm) for _, nm in src.params]
        for t, nm in src.params:
            fn.ty[slot(nm)] = t
        for bn in src.order:
            for ins in src.blocks[bn].ins:
                if ins.dst is not None:
                    fn.ty[slot(ins.dst)] = result_type(ins)
        fn.nparams = len(fn.params)
        fn.blocks = {}
        for bi, bn in enumerate(src.order):
            b = Blk()
            b.name = bn
            b.idx = bi
            b.phis = []
            segs = [[]]
            terms = []
            b.term = None
            for ins in src.blocks[bn].ins:
                op = ins.op
                if op == "phi":
                    b.phis.append((slot(ins.dst), {lab: operand(ins.ty, v) for v, lab in ins.x}))
                elif op in ("br", "cbr", "switch", "ret", "unreachable"):
                    if op == "br":
                        terms.append(("br", ins.x[0]))
                    elif op == "cbr":
                        terms.append(("cbr", operand(ity(1), ins.a[0]), ins.x[0], ins.x[1]))
                    elif op == "switch":
                        terms.append(("switch", operand(ins.ty, ins.a[0]), ins.ty.w, ins.x[1], ins.x[0]))
                    elif op == "ret":
                        terms.append(("ret", operand(ins.ty, ins.a[0]) if ins.a else None))
                    else:
                        terms.append(("unreachable",))
                elif op == "call":
                    cal, tys, noret, normal = ins.x
                    cname = self.mod.aliases.get(cal[1], cal[1]) if cal[0] == "g" else None
                    argslots = [operand(t, v) for t, v in zip(tys, ins.a)]
                    dst = slot(ins.dst) if ins.dst else None
                    h = self.intrinsic(cname, ins, tys, argslots, dst) if cname else None
                    if h is not None:
                        segs[-1].append(h)
                    else:
                        terms.append(("call", cname, operand(PTR, cal) if cname is None else None, argslots, dst, noret))
                        segs.append([])
                    if normal is not None:
                        terms.append(("br", normal))
                elif op == "landingpad":
                    continue
                else:
                    h = self.closure(ins, slot, operand)
                    if h is not None:
                        segs[-1].append(h)
            b.ops = segs
            b.terms = terms
            fn.blocks[bn] = b
        fn.entry = fn.blocks[src.order[0]]
        fn.tmpl = tmpl
        fn.straight = all(b.terms[-1][0] not in ("cbr", "switch") for b in fn.blocks.values()) and not any(
            t[0] == "call" and not t[5] for b in fn.blocks.values() for t in b.terms)
        fn.slots = slots
        self.cfg(fn)
        return fn

    def cfg(self, fn):
        """immediate post-dominators (ignoring blocks that only reach a panic) and liveness"""
        src = fn.src
        succ = {}
        rets = []
        for bn, b in fn.blocks.items():
            t = b.terms[-1]
            if t[0] == "br":
                s = [t[1]]
            elif t[0] == "cbr":
                s = [t[2], t[3]]
            elif t[0] == "switch":
                s = [x for _, x in t[3]] + [t[4]]
            elif t[0] == "ret":
                s = []
                rets.append(bn)
            else:
                s = []
            if any(x[0] == "call" and x[5] for x in b.terms):
                s = []
            succ[bn] = list(dict.fromkeys(s))
        pred = {bn: [] for bn in succ}
        for a, ss in succ.items():
            for s in ss:
                pred[s].append(a)
        live = set(rets)
        wl = list(rets)
        while wl:
            x = wl.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    wl.append(p)
        # post-dominator sets by iteration over indices (virtual exit = None)
        order = []
        seen = set(rets)
        wl = list(rets)
        while wl:  # reverse BFS
            x = wl.pop(0)
            order.append(x)
            for p in pred[x]:
                if p in live and p not in seen:
                    seen.add(p)
                    wl.append(p)
        num = {b: i + 1 for i, b in enumerate(order)}
        ipd = {}
        EXIT = "\0exit"
        num[EXIT] = 0

        def inter(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = ipd[a]
                while num[b] > num[a]:
                    b = ipd[b]
            return a
        # Cooper-Harvey-Kennedy needs reverse postorder of the reversed graph
        rpo = []
        vis = set()

        def dfs(x0):
            st = [(x0, iter([p for p in pred[x0] if p in live]))]
            vis.add(x0)
            while st:
                x, it = st[-1]
                for p in it:
                    if p not in vis:
                        vis.add(p)
                        st.append((p, iter([q for q in pred[p] if q in live])))
                        break
                else:
                    rpo.append(x)
                    st.pop()
        for r in rets:
            if r not in vis:
                dfs(r)
        rpo.reverse()
        num = {b: i + 1 for i, b in enumerate(rpo)}
        num[EXIT] = 0
        ipd = {EXIT: EXIT}
        for r in rets:
            ipd[r] = EXIT
        changed = True
        while changed:
            changed = False
            for b in rpo:
                cand = [EXIT] if b in rets else []
                cand += [s for s in succ[b] if s in live and s in ipd]
                if not cand:
                    continue
                n = cand[0]
                for c in cand[1:]:
                    n = inter(n, c)
                if ipd.get(b) != n:
                    ipd[b] = n
                    changed = True
        fn.ipd = {b: (None if p == EXIT else p) for b, p in ipd.items() if b != EXIT}
        fn.dead = set(fn.blocks) - live
        fn.soft, fn.soft_in = soft_targets(fn, succ, pred, live)
        # liveness over slots
        use, deff, phiuse = {}, {}, {}
        inv = fn.slots
        nconst = set(range(len(fn.tmpl))) - set(inv.values())
        for bn, sb in src.blocks.items():
            u, d = set(), set()
            for ins in sb.ins:
                if ins.op == "phi":
                    for v, lab in ins.x:
                        if v[0] == "r":
                            phiuse.setdefault((lab, bn), set()).add(inv[v[1]])
                else:
                    for v in ins.a:
                        if v[0] == "r" and inv[v[1]] not in d:
                            u.add(inv[v[1]])
                    if ins.op == "call" and ins.x[0][0] == "r" and inv[ins.x[0][1]] not in d:
                        u.add(inv[ins.x[0][1]])
                if ins.op != "phi" and ins.dst is not None and ins.dst in inv:
                    d.add(inv[ins.dst])
            use[bn], deff[bn] = u, d
        livein = {b: set() for b in succ}
        liveout = {b: set() for b in succ}
        changed = True
        names = list(reversed(src.order))
        phidef = {b: {inv[i.dst] for i in src.blocks[b].ins if i.op == "phi"} for b in succ}
        while changed:
            changed = False
            for b in names:
                o = set()
                for s in succ[b]:
                    o |= livein[s] - phidef[s]
                    o |= phiuse.get((b, s), set())
                i = use[b] | (o - deff[b])
                # phi results count as live on entry of the block body
                i |= phidef[b] & (use[b] | o | i)
                if o != liveout[b] or i != livein[b]:
                    liveout[b], livein[b] = o, i
                    changed = True
        # the body of b needs: use[b] plus whatever is live out and not redefined by non-phi instructions
        for b in succ:
            nonphi = {inv[i.dst] for i in src.blocks[b].ins if i.op != "phi" and i.dst is not None and i.dst in inv}
            fn.blocks[b].livein = sorted(use[b] | (liveout[b] - nonphi) | (phidef[b] & (use[b] | liveout[b])))
        # what a frame still needs when it is suspended in a call (anything live out, or used later in the block)
        fn.liveout = {b: sorted(liveout[b] | use[b] | deff[b]) for b in succ}

    # ------------------------------------------------------------ instruction closures
    def closure(self, ins, slot, operand):
        op = ins.op
        d = slot(ins.dst) if ins.dst else None
        if op in _BIN:
            w = ins.ty.w
            if ins.ty.k != "int":
                raise_uns = "%s on %s" % (op, ins.ty)

                def h(st, R):
                    raise Unsupported(raise_uns)
                return h
            a, b = operand(ins.ty, ins.a[0]), operand(ins.ty, ins.a[1])
            return _BIN[op](a, b, d, w)
        if op == "icmp":
            ty = ins.ty
            w = ty.w
            a, b = operand(ty, ins.a[0]), operand(ty, ins.a[1])
            return mk_icmp(ins.x, a, b, d, w)
        if op in ("zext", "sext", "trunc"):
            a = operand(ins.x, ins.a[0])
            return mk_cast(op, a, d, ins.x.w, ins.ty.w)
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast", "ptrtoaddr"):
            a = operand(ins.x, ins.a[0])

            def h(st, R):
                R[d] = R[a]
            return h
        if op == "load":
            return mk_load(operand(PTR, ins.a[0]), d, ins.ty, self)
        if op == "store":
            return mk_store(operand(ins.ty, ins.a[0]), operand(PTR, ins.a[1]), ins.ty, self)
        if op == "getelementptr":
            bt, tys = ins.x
            base = operand(tys[0], ins.a[0])
            const = 0
            var = []
            cur = bt
            for n, (t, v) in enumerate(zip(tys[1:], ins.a[1:])):
                if n == 0:
                    sz = bt.size()
                elif cur.k in ("arr", "vec"):
                    cur = cur.el
                    sz = cur.size()
                else:
                    const += cur.offsets()[v[1]]
                    cur = cur.fs[v[1]]
                    continue
                if v[0] == "i":
                    x = v[1]
                    if x >> (t.w - 1):
                        x -= 1 << t.w
                    const += x * sz
                else:
                    var.append((operand(t, v), sz, t.w))
            M = (1 << 64) - 1
            if not var:
                def h(st, R):
                    p = R[base]
                    R[d] = (p + const) & M if p.__class__ is int else (l_add(p, const) if p is not UNDEF else UNDEF)
                return h
            if len(var) == 1 and var[0][2] == 64:
                vs, sz, _ = var[0]

                def h(st, R):
                    p = R[base]
                    x = R[vs]
                    if p.__class__ is int and x.__class__ is int:
                        R[d] = (p + const + x * sz) & M
                    elif p is UNDEF or x is UNDEF:
                        R[d] = UNDEF
                    else:
                        if x.__class__ is int:
                            x = sgn(x, 64)
                        else:
                            x = st.ctx.signed(x, 64)
                        R[d] = l_add(p, l_add(l_scale(x, sz), const))
                return h

            def h(st, R):
                p = R[base]
                acc = const
                for vs, sz, w in var:
                    x = R[vs]
                    x = sgn(x, w) if x.__class__ is int else st.ctx.signed(x, w)
                    acc = l_add(acc, l_scale(x, sz))
                p = l_add(p, acc)
                R[d] = p & M if p.__class__ is int else p
            return h
        if op == "alloca":
            size = ins.x

            def h(st, R):
                # identified by frame depth and position, so that states that took different ways agree on it
                al = st.frames[-1].allocas
                i = STACK0 + len(st.frames) * 256 + len(al)
                if len(al) > 250:
                    raise Unsupported("alloca in a loop")
                st.mem[i] = Obj(size, st.tok)
                R[d] = i << 32
                al.append(i)
            return h
        if op == "select":
            c, a, b = operand(ity(1), ins.a[0]), operand(ins.ty, ins.a[1]), operand(ins.ty, ins.a[2])
            ty = ins.ty

            def h(st, R):
                f = R[c]
                if f.__class__ is not int:
                    if f is UNDEF:
                        raise EngineError("select on undef")
                    r = st.ctx.quick(f)
                    if r is None:
                        x, y = R[a], R[b]
                        v = merge_val(st.ctx, f, x, y, ty.w if ty.k == "int" else 64)
                        if v is not NOMERGE:
                            R[d] = v
                            return
                        r = st.ctx.decide(f)
                        if r is None:
                            raise Fork(f=f)
                    f = r
                R[d] = R[a] if f else R[b]
            return h
        if op == "extractvalue":
            a = operand(ins.ty, ins.a[0])
            idx = ins.x
            if len(idx) == 1:
                i0 = idx[0]

                def h(st, R):
                    R[d] = R[a][i0]
                return h

            def h(st, R):
                v = R[a]
                for i in idx:
                    v = v[i]
                R[d] = v
            return h
        if op == "insertvalue":
            a = operand(ins.ty, ins.a[0])
            et = ins.ty
            for i in ins.x:
                et = et.fs[i] if et.k == "st" else et.el
            e = operand(et, ins.a[1])
            idx = ins.x

            def put(v, ix, x):
                l = list(v)
                l[ix[0]] = x if len(ix) == 1 else put(l[ix[0]], ix[1:], x)
                return tuple(l)

            def h(st, R):
                R[d] = put(R[a], idx, R[e])
            return h
        what = "%s %s" % (op, ins.x)

        def h(st, R):
            raise Unsupported(what)
        return h

    # ------------------------------------------------------------ intrinsics and modelled externals
    def intrinsic(self, name, ins, tys, A, d):
        if name.startswith("llvm."):
            base = name[5:]
            if base.startswith("lifetime.end"):
                a0 = A[-1]

                def h(st, R):
                    p = R[a0]
                    if p.__class__ is int:
                        o = st.mem.get(p >> 32)
                        if o is not None and o.cells:
                            if o.tok is st.tok:
                                o.cells = {}
                            else:
                                st.mem[p >> 32] = Obj(o.size, st.tok)
                return h
            for pre in ("lifetime.", "dbg.", "assume", "experimental.noalias", "donothing", "sideeffect", "prefetch",
                        "invariant."):
                if base.startswith(pre):
                    return _nop
            w = ins.ty.w if ins.ty is not None and ins.ty.k == "int" else 64
            m = re.match(r"(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)", base)
            if m:
                return mk_ovf(m.group(1), m.group(2), A[0], A[1], d, int(m.group(3)))
            m = re.match(r"(s|u)(add|sub)\.sat\.i(\d+)", base)
            if m:
                return mk_sat(m.group(1), m.group(2), A[0], A[1], d, int(m.group(3)))
            m = re.match(r"(s|u)(max|min|cmp)\.i(\d+)(\.i(\d+))?", base)
            if m:
                k = m.group(2)
                if k == "cmp":
                    return mk_cmp3(m.group(1), A[0], A[1], d, int(m.group(3)), tys[0].w)
                return mk_minmax(m.group(1), k, A[0], A[1], d, int(m.group(3)))
            if base.startswith("abs."):
                return mk_abs(A[0], d, w)
            if base.startswith("expect"):
                a0 = A[0]

                def h(st, R):
                    R[d] = R[a0]
                return h
            if base.startswith("is.constant"):
                def h(st, R):
                    R[d] = 0
                return h
            if base.startswith("memcpy") or base.startswith("memmove"):
                return mk_memcpy(A[0], A[1], A[2], self)
            if base.startswith("memset"):
                return mk_memset(A[0], A[1], A[2], self)
            m = re.match(r"(ctpop|ctlz|cttz|bswap|bitreverse)\.i(\d+)", base)
            if m:
                return mk_bits(m.group(1), A[0], d, int(m.group(2)))
            m = re.match(r"fsh(l|r)\.i(\d+)", base)
            if m:
                return mk_fsh(m.group(1), A, d, int(m.group(2)))
            if base.startswith("ptrmask"):
                pass
            what = name

            def h(st, R):
                raise Unsupported(what)
            return h
        if "___rust_dealloc" in name:
            a0 = A[0]

            def h(st, R):
                p = R[a0]
                if p.__class__ is int:
                    st.mem.pop(p >> 32, None)
            return h
        if "___rust_no_alloc_shim" in name:
            return _nop
        if "___rust_alloc_zeroed" in name or "___rust_alloc" in name:
            zero = "zeroed" in name
            a0 = A[0]

            def h(st, R):
                n = need_conc(st, R[a0])
                R[d] = st_alloc(st, n, zero)
            return h
        if "___rust_realloc" in name:
            a0, a3 = A[0], A[3]

            def h(st, R):
                n = need_conc(st, R[a3])
                p = need_conc(st, R[a0])
                q = st_alloc(st, n)
                o = st.mem[p >> 32]
                st.mem[q >> 32].cells.update((k, v) for k, v in o.cells.items() if k < n)
                st.mem[q >> 32].zero = o.zero
                del st.mem[p >> 32]
                R[d] = q
            return h
        if name in ("memcmp", "bcmp"):
            return mk_memcmp(A[0], A[1], A[2], d, self)
        return None

    # ------------------------------------------------------------ running
    def start(self, name, args, ctx=None):
        st = State()
        st.log = None
        st.mem = {}
        st.ctx = ctx or Ctx()
        st.tok = object()
        st.next = HEAP0
        st.frames = []
        st.status = None
        st.ret = None
        st.why = None
        st.steps = 0
        self.cur = self
        return st

    def push(self, st, name, args, dst):
        fn = self.fn(name)
        self.used.add(name)
        fr = Frame()
        fr.fn = fn
        fr.blk = fn.entry
        fr.ip = (0, 0)
        fr.R = fn.tmpl[:]
        fr.prev = None
        fr.dst = dst
        fr.allocas = []
        for s, v in zip(fn.params, args):
            fr.R[s] = v
        st.frames.append(fr)
        return fr

    def call(self, st, name, args):
        """runs function `name` to completion; returns the list of final states (status ret / panic)"""
        st.status = None
        st.ret = None
        self.ret_ty = self.mod.funcs[name].ret
        base = len(st.frames)
        self.push(st, name, args, None)
        self.npaths = 0
        out = []
        for s in self.run(st, base, None, out):
            self.finish(s, "ret", None, out)
        return out

    def finish(self, st, status, why, out):
        st.status = status
        st.why = why
        out.append(st)
        self.npaths += 1
        if self.npaths > self.max_paths:
            raise EngineError("too many paths")

    def run(self, st, depth, stop, out, stop2=None):
        """runs st until its stack is only `depth` deep, or (depth+1 deep and) about to execute block `stop`.
        Returns the states that got there; states that end otherwise go to out."""
        mod = self
        work = [st]
        arrived = []
        while work:
            st = work.pop()
            while True:
                fr = st.frames[-1]
                R = fr.R
                seg, i = fr.ip
                blk = fr.blk
                ops = blk.ops[seg]
                try:
                    n = len(ops)
                    while i < n:
                        ops[i](st, R)
                        i += 1
                    self.steps += n + 1
                    st.steps += n + 1
                    if st.steps > self.max_steps:
                        raise EngineError("step limit")
                    term = blk.terms[seg]
                    k = term[0]
                    if k == "br":
                        self.enter(st, fr, term[1])
                        if stop is not None and (fr.blk is stop or fr.blk is stop2) and len(st.frames) == depth + 1:
                            arrived.append(st)
                            break
                        continue
                    if k == "cbr":
                        c = R[term[1]]
                        if c.__class__ is not int:
                            if c is UNDEF:
                                raise EngineError("branch on undef in " + fr.fn.name)
                            r = st.ctx.decide(c)
                            if r is None:
                                self.branch(st, [(c, term[2]), (f_not(c), term[3])], work, out, depth, stop, arrived, stop2)
                                break
                            c = r
                        self.enter(st, fr, term[2] if c else term[3])
                        if stop is not None and (fr.blk is stop or fr.blk is stop2) and len(st.frames) == depth + 1:
                            arrived.append(st)
                            break
                        continue
                    if k == "call":
                        fr.ip = (seg + 1, 0)
                        r = self.docall(st, fr, term, out, work, depth)
                        if r is None:
                            break
                        continue
                    if k == "ret":
                        v = R[term[1]] if term[1] is not None else None
                        for a in fr.allocas:
                            st.mem.pop(a, None)
                        st.frames.pop()
                        if fr.dst is not None and len(st.frames):
                            st.frames[-1].R[fr.dst] = v
                        if len(st.frames) == depth:
                            st.ret = v
                            arrived.append(st)
                            break
                        continue
                    if k == "switch":
                        v = R[term[1]]
                        if v.__class__ is not int:
                            w = term[2]
                            v = st.ctx.unsigned(v, w) if v.__class__ is Lin else v
                            cv = st.ctx.concretize(v) if v.__class__ is Lin else None
                            if cv is None:
                                alts = []
                                rest = 1
                                for cvv, lab in term[3]:
                                    f = f_eq(v, cvv) if v.__class__ is Lin else (v if cvv else f_not(v))
                                    r = st.ctx.decide(f)
                                    if r is False:
                                        continue
                                    alts.append((f, lab))
                                    rest = f_and(rest, f_not(f))
                                    if r is True:
                                        break
                                if st.ctx.decide(rest) is not False:
                                    alts.append((rest, term[4]))
                                self.branch(st, alts, work, out, depth, stop, arrived, stop2)
                                break
                            v = cv
                        for cvv, lab in term[3]:
                            if cvv == v:
                                break
                        else:
                            lab = term[4]
                        self.enter(st, fr, lab)
                        if stop is not None and (fr.blk is stop or fr.blk is stop2) and len(st.frames) == depth + 1:
                            arrived.append(st)
                            break
                        continue
                    if k == "unreachable":
                        self.finish(st, "panic", "unreachable reached in " + fr.fn.name, out)
                        break
                    raise EngineError("terminator " + k)
                except Fork as e:
                    fr.ip = (seg, i)
                    self.forks += 1
                    if e.f is not None:
                        alts = [e.f, f_not(e.f)]
                        for f in alts[1:]:
                            s2 = st.copy()
                            try:
                                s2.ctx.assume(f)
                                work.append(s2)
                            except Dead:
                                pass
                        try:
                            st.ctx.assume(alts[0])
                        except Dead:
                            break
                        continue
                    vals = self.values(st, e.lin)
                    for v in vals[1:]:
                        s2 = st.copy()
                        try:
                            s2.ctx.assume(f_eq(e.lin, v))
                            work.append(s2)
                        except Dead:
                            pass
                    if not vals:
                        break
                    try:
                        st.ctx.assume(f_eq(e.lin, vals[0]))
                    except Dead:
                        break
                    continue
                except MemError as e:
                    self.finish(st, "memerr", str(e) + " in " + fr.fn.name, out)
                    break
                except PanicEnd as e:
                    self.finish(st, "panic", e.what, out)
                    break
                except Dead:
                    break
        return arrived

    def values(self, st, lin, cap=600):
        """all feasible values of lin on this path (small sets only)"""
        lo, hi = st.ctx.iv(lin)
        res = []
        if hi - lo < 24:
            for v in range(lo, hi + 1):
                if st.ctx.decide(f_eq(lin, v)) is not False:
                    res.append(v)
            return res
        # solver-driven enumeration
        import z3
        c = st.ctx
        extra = 1
        while True:
            r, m = SOLVER.check(c.node, extra, True)
            if r == "unsat":
                return res
            if r != "sat":
                raise EngineError("cannot enumerate a symbolic index")
            env = {}
            for a in lin.t:
                v = m.eval(sym.zvar(a), model_completion=True)
                env[a] = v.as_long() if z3.is_int_value(v) else sym.ALO[a]
            if any(sym._z3var[a] is None for a in lin.t):
                pass
            v = lin.c + sum(k * env[a] for a, k in lin.t.items())
            if v in res:
                raise EngineError("enumeration repeats")
            res.append(v)
            if len(res) > cap:
                raise EngineError("symbolic index with too many values: " + sym.show(lin)[:200])
            extra = f_and(extra, f_not(f_eq(lin, v)))

    def enter(self, st, fr, label):
        b = fr.fn.blocks[label]
        prev = fr.blk.name
        if b.phis:
            R = fr.R
            vals = [R[src[prev]] for _, src in b.phis]
            for (d, _), v in zip(b.phis, vals):
                R[d] = v
        fr.blk = b
        fr.ip = (0, 0)

    def docall(self, st, fr, term, out, work, depth):
        _, name, ptr, argslots, dst, noret = term
        R = fr.R
        if name is None:
            p = R[ptr]
            if p.__class__ is not int:
                raise Unsupported("symbolic call target")
            name = self.fbyaddr.get(p)
            if name is None:
                raise Unsupported("call through %x" % p)
        f = self.mod.funcs.get(name) or self.mod.decls.get(name)
        if noret or f.noreturn or (PANIC_RE.search(name) and name not in self.mod.funcs):
            self.finish(st, "panic", name + " called from " + fr.fn.name, out)
            return None
        if name not in self.mod.funcs:
            raise Unsupported("external function " + name)
        if len(st.frames) > 400:
            raise EngineError("call depth")
        callee = self.fn(name)
        d0 = len(st.frames)
        self.push(st, name, [R[a] for a in argslots], dst)
        if callee.straight:
            return True
        # run the callee to its return, so that its paths can be merged where only its result tells them apart
        n0 = st.ctx.node
        nended = len(out)
        states = self.run(st, d0, None, out)
        if len(states) > 1:
            for s in states:
                self.ahead(s)
            states = self.merge_all(states, n0, len(out) == nended, True)
        work.extend(states)
        return None

    def ahead(self, s):
        """executes what is left of the caller's straight-line segment (temporaries die there)"""
        fr = s.frames[-1]
        seg, i = fr.ip
        ops = fr.blk.ops[seg]
        try:
            while i < len(ops):
                ops[i](s, fr.R)
                i += 1
        except (Fork, MemError, PanicEnd, Dead):
            pass
        fr.ip = (seg, i)

    # ------------------------------------------------------------ branching and merging
    def branch(self, st, alts, work, out, depth, stop, arrived, stop2=None):
        fr = st.frames[-1]
        fn = fr.fn
        self.forks += 1
        pname = fn.ipd.get(fr.blk.name, "?")
        myd = len(st.frames) - 1     # depth below this frame
        merge = pname != "?"
        pblk = fn.blocks[pname] if merge and pname is not None else None
        sblk = None
        if self.soft and merge:
            x = fn.soft.get(fr.blk.name)
            if x is not None and all(lab in fn.soft_in[fr.blk.name] for _, lab in alts):
                # a place inside the innermost loop where the sides meet again unless they leave the loop
                sblk = fn.blocks[x]
                if pblk is None:
                    pblk = sblk
        parent = st
        n0 = parent.ctx.node
        got = []
        nended = len(out)
        k = len(alts)
        for j, (f, lab) in enumerate(alts):
            s = parent.copy() if j < k - 1 else parent
            try:
                s.ctx.assume(f)
            except Dead:
                continue
            sf = s.frames[-1]
            self.enter(s, sf, lab)
            if not merge:
                if stop is not None and (sf.blk is stop or sf.blk is stop2) and len(s.frames) == depth + 1:
                    arrived.append(s)
                else:
                    work.append(s)
                continue
            if pblk is not None and (sf.blk is pblk or sf.blk is sblk):
                got.append([s])
                continue
            if myd == depth and stop is not None and (sf.blk is stop or sf.blk is stop2):
                # our own stop lies before the post-dominator; cannot happen for well nested regions
                got.append([s])
                continue
            # run this side up to the post-dominator (or to the return of this frame)
            r = self.run(s, myd, pblk, out, sblk)
            got.append(r)
        if not merge:
            return
        complete = len(out) == nended
        states = [s for g in got for s in g]
        states = self.merge_all(states, n0, complete)
        for s in states:
            if len(s.frames) == depth or (stop is not None and len(s.frames) == depth + 1 and (s.frames[-1].blk is stop or s.frames[-1].blk is stop2) and s.frames[-1].ip == (0, 0)):
                arrived.append(s)
            else:
                work.append(s)

    def merge_all(self, states, n0, complete, pure=False):
        if len(states) < 2:
            return states
        groups = []
        for s in states:
            for g in groups:
                m = self.try_merge(g[0], s, n0, pure)
                if m is not None:
                    g[0] = m
                    g[1] += 1
                    self.merges += 1
                    break
            else:
                groups.append([s, 1])
        if len(groups) == 1 and complete and groups[0][1] == len(states):
            # every alternative came back: the path condition is the parent's again
            g = groups[0][0]
            g.ctx.node = n0
        return [g[0] for g in groups]

    def try_merge(self, a, b, n0, pure=False):
        if len(a.frames) != len(b.frames) or (self.apart and a.log is not b.log):
            return None
        ctx = Ctx()
        fa, fb = path_formula(a.ctx.node, n0), path_formula(b.ctx.node, n0)
        plan = []
        nf = len(a.frames)
        for i in range(nf):
            x, y = a.frames[i], b.frames[i]
            if x.fn is not y.fn or x.blk is not y.blk or x.ip != y.ip or len(x.allocas) != len(y.allocas):
                return None
            RX, RY = x.R, y.R
            top = i == nf - 1
            if top and x.ip == (0, 0):
                ls = x.blk.livein
            else:
                ls = x.fn.liveout[x.blk.name]
            for s in ls:
                u, v = RX[s], RY[s]
                if u is v:
                    continue
                if not same_val(u, v):
                    ty = x.fn.ty.get(s)
                    if ty is None or hard_conflict(u, v, ty) or (self.apart and differ(a.ctx, b.ctx, u, v, ty)):
                        return None
                    plan.append((i, s, u, v, ty))
        if a.ret is not b.ret and not same_val(a.ret, b.ret) and a.ret is not None and b.ret is not None and nf == 0:
            if hard_conflict(a.ret, b.ret, self.ret_ty):
                return None
            plan.append((-1, 0, a.ret, b.ret, self.ret_ty))
        ma, mb = a.mem, b.mem
        if len(ma) != len(mb):
            return None
        mplan = []
        for k, oa in ma.items():
            ob = mb.get(k)
            if ob is None:
                return None
            if oa is ob:
                continue
            if oa.size != ob.size or oa.zero != ob.zero:
                return None
            ca, cb = oa.cells, ob.cells
            if len(ca) != len(cb):
                return None
            for off, (sz, u) in ca.items():
                e = cb.get(off)
                if e is None or e[0] != sz:
                    return None
                v = e[1]
                if u is v or same_val(u, v):
                    continue
                if pure or hard_conflict(u, v, ity(8 * sz)) or (self.apart and differ(a.ctx, b.ctx, u, v, ity(8 * sz))):
                    return None
                mplan.append((k, off, sz, u, v))
        # commit: a takes the merged values
        f = merge_cond(a.ctx, b.ctx, n0, fa, fb)
        a.tok = object()
        for i, s, u, v, ty in plan:
            r = merge_vals(a.ctx, b.ctx, f, u, v, ty)
            if i < 0:
                a.ret = r
            else:
                a.frames[i].R[s] = r
        for k, off, sz, u, v in mplan:
            r = merge_vals(a.ctx, b.ctx, f, u, v, ity(8 * sz))
            o = a.mem[k]
            if o.tok is not a.tok:
                n = Obj(o.size, a.tok, o.const, o.zero)
                n.cells = dict(o.cells)
                a.mem[k] = o = n
            o.cells[off] = (sz, r)
        if a.ret is None:
            a.ret = b.ret
        a.ctx = merge_ctx(a.ctx, b.ctx, n0, fa, fb)
        a.steps = max(a.steps, b.steps)
        a.next = max(a.next, b.next)
        return a


def soft_targets(fn, succ, pred, live):
    """for each block of a loop whose post-dominator lies outside: where its paths meet again as long as they stay in the loop"""
    entry = next(iter(fn.blocks))
    # back edges by depth-first search
    state, back = {}, []
    st = [(entry, iter(succ[entry]))]
    state[entry] = 1
    while st:
        x, it = st[-1]
        for y in it:
            if y not in live:
                continue
            if state.get(y) == 1:
                back.append((x, y))
            elif y not in state:
                state[y] = 1
                st.append((y, iter(succ[y])))
                break
        else:
            state[x] = 2
            st.pop()
    loops = {}
    for a, h in back:
        body = loops.setdefault(h, {h})
        wl = [a]
        while wl:
            x = wl.pop()
            if x not in body:
                body.add(x)
                wl += [p for p in pred[x] if p in live]
    soft, inside = {}, {}
    for h, body in sorted(loops.items(), key=lambda t: len(t[1])):
        # post-dominator sets towards the next visit of h
        END = "\0head"
        nodes = [b for b in body]
        full = set(nodes) | {END}
        pd = {b: full for b in nodes}
        nxt = {b: [END if y == h else y for y in succ[b] if y in body] for b in nodes}
        changed = True
        while changed:
            changed = False
            for b in nodes:
                n = None
                for y in nxt[b]:
                    t = {END} if y == END else pd[y]
                    n = t if n is None else n & t
                n = (n or set()) | {b}
                if n != pd[b]:
                    pd[b] = n
                    changed = True
        for b in nodes:
            if b in soft or fn.ipd.get(b, None) in body:
                continue
            c = [x for x in pd[b] if x != b and x != END]
            # the nearest: the one that all others post-dominate
            best = next((x for x in c if all(y == x or y in pd[x] for y in c)), None)
            soft[b] = best if best is not None else h
            inside[b] = body
    return soft, inside


def path_formula(node, n0):
    fs = []
    n = node
    while n is not n0:
        if n is None:
            raise EngineError("path bookkeeping")
        fs.append(n.f)
        n = n.p
    return f_and(*fs)


def merge_cond(ca, cb, n0, fa, fb):
    """a formula that is true on a's paths and false on b's"""
    return f_not(fb) if fsize(fb) < fsize(fa) else fa


def fsize(f):
    if f.__class__ is int:
        return 0
    if f.op in ("and", "or"):
        return sum(fsize(g) for g in f.a)
    return 1


def merge_ctx(ca, cb, n0, fa, fb):
    c = Ctx()
    f = f_or(fa, fb)
    c.node = n0
    c.wit = (ca.wit + cb.wit)[:sym.NWIT]
    pa, pb = ca.pb, cb.pb
    for a, (lo, hi) in pa.items():
        e = pb.get(a)
        if e is not None:
            lo, hi = min(lo, e[0]), max(hi, e[1])
            if lo > sym.ALO[a] or hi < sym.AHI[a]:
                c.pb[a] = (lo, hi)
    for k, (lo, hi) in ca.facts.items():
        e = cb.facts.get(k)
        if e is not None:
            c.facts[k] = (min(lo, e[0]), max(hi, e[1]))
    for k, v in ca.cache.items():
        if cb.cache.get(k) == v:
            c.cache[k] = v
    if f.__class__ is not int:
        c.node = n0.add(f)
    return c


def same_val(u, v):
    cu, cv = u.__class__, v.__class__
    if cu is int and cv is int:
        return u == v
    if cu is Lin and cv is Lin:
        return u.c == v.c and u.t == v.t
    if cu is tuple and cv is tuple:
        return all(same_val(x, y) for x, y in zip(u, v))
    return False


def hard_conflict(u, v, ty):
    """two values that must not be merged because they steer control or addressing"""
    cu, cv = u.__class__, v.__class__
    if cu is tuple and cv is tuple:
        ts = ty.fs if ty.k == "st" else [ty.el] * len(u)
        return any(hard_conflict(x, y, t) for x, y, t in zip(u, v, ts) if not same_val(x, y))
    if cu is tuple or cv is tuple:
        return True
    if cu is int and cv is int:
        return ty.k != "int" or ty.w >= 64
    return False


LOG_DIV = [None]      # quotients by this divisor are kept in the state


def differ(ca, cb, u, v, ty):
    """unequal values that a later division would see as a choice"""
    if u.__class__ is not Lin and v.__class__ is not Lin:
        return False
    if u is UNDEF or v is UNDEF or u.__class__ is F or v.__class__ is F or ty.k != "int" or ty.w < 32:
        return False
    d = l_sub(u, v)
    return d.__class__ is int or (ca.iv2(d) != (0, 0) and cb.iv2(d) != (0, 0))


NOMERGE = object()


def as_int(ctx, v):
    if v.__class__ is F:
        return l_bool(v)
    return v


def merge_val(ctx, f, u, v, w):
    """select f u v as a value, or NOMERGE"""
    if u is UNDEF:
        return v
    if v is UNDEF:
        return u
    if same_val(u, v):
        return u
    cu, cv = u.__class__, v.__class__
    if cu is tuple or cv is tuple:
        return NOMERGE
    if w == 1:
        return f_or(f_and(f, u), f_and(f_not(f), v))
    if cu is int and cv is int and w >= 64:
        return NOMERGE
    if cu is int:
        u = sgn(u, w)
    if cv is int:
        v = sgn(v, w)
    if cu is F or cv is F:
        return NOMERGE
    return simp_ite(ctx, f, u, v)


def simp_ite(ctx, f, u, v):
    d = l_sub(u, v)
    if d.__class__ is Lin:
        c = ctx.copy()
        try:
            c.learn(f, 0)
            if c.iv2(d) == (0, 0):
                return v
        except Dead:
            return v
        c = ctx.copy()
        try:
            c.learn(f_not(f), 0)
            if c.iv2(d) == (0, 0):
                return u
        except Dead:
            return u
    return l_ite(f, u, v)


def merge_vals(ca, cb, f, u, v, ty):
    if u is UNDEF or v is UNDEF:
        return v if u is UNDEF else u
    if same_val(u, v):
        return u
    cu, cv = u.__class__, v.__class__
    if cu is tuple:
        ts = ty.fs if ty.k == "st" else [ty.el] * len(u)
        return tuple(merge_vals(ca, cb, f, x, y, t) for x, y, t in zip(u, v, ts))
    if ty.k == "int" and ty.w == 1:
        return f_or(f_and(f, u), f_and(f_not(f), v))
    w = ty.w if ty.k == "int" else 64
    if cu is F:
        u = l_bool(u)
    elif cu is int:
        u = sgn(u, w)
    if cv is F:
        v = l_bool(v)
    elif cv is int:
        v = sgn(v, w)
    d = l_sub(u, v)
    if d.__class__ is Lin:
        if ca.iv2(d) == (0, 0):
            return v
        if cb.iv2(d) == (0, 0):
            return u
    return l_ite(f, u, v)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def need_conc(st, v):
    if v.__class__ is int:
        return v
    if v is UNDEF:
        raise EngineError("undef where a concrete value is needed")
    if v.__class__ is F:
        r = st.ctx.decide(v)
        if r is None:
            raise Fork(f=v)
        return int(r)
    c = st.ctx.concretize(v)
    if c is not None:
        return c & ((1 << 64) - 1)
    raise Fork(lin=v)


def _nop(st, R):
    pass


# ---------------------------------------------------------------- arithmetic
def sy(x, w):
    """operand for a linear operation: concrete values in signed representation"""
    if x.__class__ is int:
        return x - (1 << w) if x >> (w - 1) else x
    if x.__class__ is F:
        return l_bool(x)
    return x


def norm(x, w):
    return x & ((1 << w) - 1) if x.__class__ is int else x


def b_add(a, b, d, w):
    M = (1 << w) - 1

    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int:
            R[d] = (x + y) & M
        elif x is UNDEF or y is UNDEF:
            R[d] = UNDEF
        elif w == 1:
            R[d] = f_xor(x, y)
        else:
            R[d] = norm(l_add(sy(x, w), sy(y, w)), w)
    return h


def b_sub(a, b, d, w):
    M = (1 << w) - 1

    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int:
            R[d] = (x - y) & M
        elif x is UNDEF or y is UNDEF:
            R[d] = UNDEF
        elif w == 1:
            R[d] = f_xor(x, y)
        else:
            R[d] = norm(l_sub(sy(x, w), sy(y, w)), w)
    return h


def b_mul(a, b, d, w):
    M = (1 << w) - 1

    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int:
            R[d] = (x * y) & M
        elif x is UNDEF or y is UNDEF:
            R[d] = UNDEF
        elif w == 1:
            R[d] = f_and(x, y)
        else:
            c = st.ctx
            if x.__class__ is Lin and y.__class__ is Lin:
                cx, cy = c.concretize(x), c.concretize(y)
                if cx is not None:
                    x = cx
                if cy is not None:
                    y = cy
            R[d] = norm(l_mul(sy(x, w) if x.__class__ is not int or x >= 0 else x,
                              sy(y, w) if y.__class__ is not int or y >= 0 else y), w)
    return h


def udivrem(ctx, x, y):
    """floor quotient of non-negative x by positive y"""
    if y.__class__ is int:
        return ctx.floordiv(x, y)
    return l_sdivpos(ctx, x, y)


def sdiv_q(st, x, y, w):
    c = st.ctx
    if x.__class__ is int:
        x = sgn(x, w)
    else:
        x = c.signed(x, w)
    if y.__class__ is int:
        y = sgn(y, w)
    else:
        y = c.signed(y, w)
        cy = c.concretize(y)
        if cy is not None:
            y = cy
    if y.__class__ is int and y == 0:
        raise MemError("division by zero")
    sx = sign_of(c, x)
    syy = sign_of(c, y)
    if syy == 0.5:
        r = c.decide(f_lt(0, y))
        if r is None:
            raise Fork(f=f_lt(0, y))
        syy = 1 if r else 0
    if sx is None or syy is None:
        raise Fork(f=f_le(0, x) if sx is None else f_lt(0, y))
    if syy == 0:
        raise MemError("division by zero")
    ax = x if sx >= 0 else l_scale(x, -1)
    ay = y if syy > 0 else l_scale(y, -1)
    q = udivrem(c, ax, ay)
    if sx * syy < 0:
        q = l_scale(q, -1)
    return x, y, q


def sign_of(c, x):
    if x.__class__ is int:
        return (x > 0) - (x < 0)
    lo, hi = c.iv(x)
    if lo > 0:
        return 1
    if lo >= 0:
        return 1 if lo > 0 else 0.5
    if hi <= 0:
        return -1
    r = c.decide(f_le(0, x))
    if r is True:
        return 0.5
    if r is False:
        return -1
    return None


def b_sdiv(a, b, d, w):
    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int:
            x, y = sgn(x, w), sgn(y, w)
            if y == 0:
                raise MemError("division by zero")
            q = abs(x) // abs(y)
            if y == LOG_DIV[0]:
                st.log = (q, st.log)
            R[d] = (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
            return
        x, y, q = sdiv_q(st, x, y, w)
        if (y if y.__class__ is int else 'any') == LOG_DIV[0]:
            st.log = (q, st.log)
        R[d] = norm(q, w)
    return h


def b_srem(a, b, d, w):
    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int:
            x, y = sgn(x, w), sgn(y, w)
            if y == 0:
                raise MemError("division by zero")
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            R[d] = (x - q * y) & ((1 << w) - 1)
            return
        x, y, q = sdiv_q(st, x, y, w)
        R[d] = norm(l_sub(x, l_mul(q, y)), w)
    return h


def udiv_q(st, x, y, w):
    c = st.ctx
    x = c.unsigned(x, w) if x.__class__ is Lin else x
    if y.__class__ is Lin:
        y = c.unsigned(y, w)
        cy = c.concretize(y)
        if cy is not None:
            y = cy
    if y.__class__ is int:
        if y == 0:
            raise MemError("division by zero")
    else:
        r = c.decide(f_lt(0, y))
        if r is None:
            raise Fork(f=f_lt(0, y))
        if not r:
            raise MemError("division by zero")
    return x, y, udivrem(c, x, y)


def b_udiv(a, b, d, w):
    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int and y:
            R[d] = x // y
            if y == LOG_DIV[0]:
                st.log = (x // y, st.log)
            return
        x, y, q = udiv_q(st, x, y, w)
        if (y if y.__class__ is int else 'any') == LOG_DIV[0]:
            st.log = (q, st.log)
        R[d] = norm(q, w)
    return h


def b_urem(a, b, d, w):
    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int and y:
            R[d] = x % y
            return
        x, y, q = udiv_q(st, x, y, w)
        R[d] = norm(l_sub(x, l_mul(q, y)), w)
    return h


def and_mask(ctx, x, m, w):
    """x & m for symbolic x"""
    if m == 0:
        return 0
    full = (1 << w) - 1
    if m == full:
        return x
    x = ctx.unsigned(x, w)
    out = 0
    j = 0
    while m >> j:
        if not (m >> j) & 1:
            j += 1
            continue
        k = j
        while (m >> k) & 1:
            k += 1
        # bits j..k-1
        hi = x if k >= w else l_sub(x, l_scale(ctx.floordiv(x, 1 << k), 1 << k))
        part = l_scale(ctx.floordiv(hi, 1 << j), 1 << j)
        out = l_add(out, part)
        j = k
    return out


def bitop(kind):
    def make(a, b, d, w):
        M = (1 << w) - 1

        def h(st, R):
            x, y = R[a], R[b]
            if x.__class__ is int and y.__class__ is int:
                R[d] = x & y if kind == "and" else x | y if kind == "or" else x ^ y
                return
            if x is UNDEF or y is UNDEF:
                R[d] = UNDEF
                return
            if w == 1:
                R[d] = f_and(x, y) if kind == "and" else f_or(x, y) if kind == "or" else f_xor(x, y)
                return
            c = st.ctx
            if x.__class__ is Lin:
                cx = c.concretize(x)
                if cx is not None:
                    x = cx & M
            if y.__class__ is Lin:
                cy = c.concretize(y)
                if cy is not None:
                    y = cy & M
            if x.__class__ is int:
                x, y = y, x
            if y.__class__ is int:
                if x.__class__ is int:
                    R[d] = x & y if kind == "and" else x | y if kind == "or" else x ^ y
                    return
                if kind == "xor" and y == M:
                    R[d] = l_sub(-1, x)
                    return
                m = and_mask(c, x, y, w)
                if kind == "and":
                    r = m
                elif kind == "or":
                    r = l_sub(l_add(x, y), m)
                else:
                    r = l_sub(l_add(x, y), l_scale(m, 2))
                R[d] = norm(r, w)
                return
            # both symbolic
            x, y = c.unsigned(x, w), c.unsigned(y, w)
            xl, xh = c.iv(x)
            yl, yh = c.iv(y)
            if xh <= 1 and yh <= 1 and xl >= 0 and yl >= 0:
                fx, fy = f_eq(x, 1), f_eq(y, 1)
                f = f_and(fx, fy) if kind == "and" else f_or(fx, fy) if kind == "or" else f_xor(fx, fy)
                R[d] = l_bool(f)
                return
            if kind != "and":
                # disjoint bit ranges (byte composition)
                for p, q, ql in ((x, y, yh), (y, x, xh)):
                    k = ql.bit_length()
                    if all(v % (1 << k) == 0 for v in p.t.values()) and p.c % (1 << k) == 0:
                        R[d] = l_add(p, q)
                        return
            raise Fork(lin=x if xh - xl <= yh - yl else y)
        return h
    return make


def shift(kind):
    def make(a, b, d, w):
        M = (1 << w) - 1

        def h(st, R):
            x, y = R[a], R[b]
            if y.__class__ is not int:
                y = need_conc(st, y)
            if y >= w:
                R[d] = UNDEF
                return
            if x.__class__ is int:
                if kind == "shl":
                    R[d] = (x << y) & M
                elif kind == "lshr":
                    R[d] = x >> y
                else:
                    R[d] = (sgn(x, w) >> y) & M
                return
            if x is UNDEF:
                R[d] = UNDEF
                return
            c = st.ctx
            if kind == "shl":
                r = l_scale(x, 1 << y)
            elif kind == "lshr":
                r = c.floordiv(c.unsigned(x, w), 1 << y)
            else:
                r = c.floordiv(c.signed(x, w), 1 << y)
            R[d] = norm(r, w)
        return h
    return make


_BIN = {"add": b_add, "sub": b_sub, "mul": b_mul, "sdiv": b_sdiv, "udiv": b_udiv, "srem": b_srem, "urem": b_urem,
        "and": bitop("and"), "or": bitop("or"), "xor": bitop("xor"),
        "shl": shift("shl"), "lshr": shift("lshr"), "ashr": shift("ashr")}


def iv_of(st, x, w, signed):
    if x.__class__ is int:
        return sgn(x, w) if signed else x
    return st.ctx.signed(x, w) if signed else st.ctx.unsigned(x, w)


def mk_icmp(pred, a, b, d, w):
    if pred in ("eq", "ne"):
        ne = pred == "ne"

        def h(st, R):
            x, y = R[a], R[b]
            if x.__class__ is int and y.__class__ is int:
                R[d] = int((x == y) != ne)
                return
            if x is UNDEF or y is UNDEF:
                R[d] = UNDEF
                return
            if w == 1:
                f = f_iff(x, y)
            else:
                c = st.ctx
                D = l_sub(sy(x, w), sy(y, w))
                if D.__class__ is int:
                    f = int(D % (1 << w) == 0)
                else:
                    lo, hi = D.bounds()
                    if lo > -(1 << w) and hi < (1 << w):
                        f = f_eq0(D)
                    else:
                        f = f_eq(iv_of(st, x, w, False), iv_of(st, y, w, False))
            R[d] = f_not(f) if ne else f
        return h
    signed = pred[0] == "s"
    rel = pred[1:]

    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int:
            if signed:
                x, y = sgn(x, w), sgn(y, w)
            R[d] = int(x < y if rel == "lt" else x <= y if rel == "le" else x > y if rel == "gt" else x >= y)
            return
        if x is UNDEF or y is UNDEF:
            R[d] = UNDEF
            return
        if w == 1:
            x, y = l_bool(x), l_bool(y)
            if signed:
                x, y = l_scale(x, -1), l_scale(y, -1)
        else:
            x, y = iv_of(st, x, w, signed), iv_of(st, y, w, signed)
        R[d] = f_lt(x, y) if rel == "lt" else f_le(x, y) if rel == "le" else f_lt(y, x) if rel == "gt" else f_le(y, x)
    return h


def mk_cast(op, a, d, w0, w1):
    if op == "zext":
        def h(st, R):
            x = R[a]
            if x.__class__ is int or x is UNDEF:
                R[d] = x
            elif x.__class__ is F:
                R[d] = l_bool(x)
            else:
                R[d] = st.ctx.unsigned(x, w0)
        return h
    if op == "sext":
        M = (1 << w1) - 1

        def h(st, R):
            x = R[a]
            if x.__class__ is int:
                R[d] = sgn(x, w0) & M
            elif x is UNDEF:
                R[d] = x
            elif x.__class__ is F:
                R[d] = l_scale(l_bool(x), -1)
            else:
                R[d] = st.ctx.signed(x, w0)
        return h
    M = (1 << w1) - 1

    def h(st, R):
        x = R[a]
        if x.__class__ is int:
            R[d] = x & M
        elif x is UNDEF:
            R[d] = x
        elif w1 == 1:
            c = st.ctx
            x = c.unsigned(x, w0)
            lo, hi = c.iv(x)
            if lo >= 0 and hi <= 1:
                R[d] = f_eq(x, 1)
            else:
                R[d] = f_eq(l_sub(x, l_scale(c.floordiv(x, 2), 2)), 1)
        else:
            # drop multiples of 2^w1
            if any(abs(k) >> w1 for k in x.t.values()) or abs(x.c) >> w1:
                t = {}
                for m, k in x.t.items():
                    k = sgn(k & M, w1)
                    if k:
                        t[m] = k
                x = sym.mk(t, sgn(x.c & M, w1))
                x = norm(x, w1)
            R[d] = x
    return h


def mk_ovf(s, op, a, b, d, w):
    M = (1 << w) - 1
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == "s" else (0, M)
    signed = s == "s"
    fop = {"add": l_add, "sub": l_sub, "mul": l_mul}[op]

    def h(st, R):
        x, y = R[a], R[b]
        if x.__class__ is int and y.__class__ is int:
            if signed:
                x, y = sgn(x, w), sgn(y, w)
            v = x + y if op == "add" else x - y if op == "sub" else x * y
            R[d] = (v & M, 0 if lo <= v <= hi else 1)
            return
        if x is UNDEF or y is UNDEF:
            raise EngineError("undef in checked arithmetic")
        c = st.ctx
        x, y = iv_of(st, x, w, signed), iv_of(st, y, w, signed)
        if op == "mul" and x.__class__ is Lin and y.__class__ is Lin:
            cx, cy = c.concretize(x), c.concretize(y)
            x = cx if cx is not None else x
            y = cy if cy is not None else y
        v = fop(x, y)
        if v.__class__ is int:
            R[d] = (v & M, 0 if lo <= v <= hi else 1)
            return
        l, u = v.bounds()
        if lo <= l and u <= hi:
            R[d] = (v, 0)
            return
        l, u = c.iv(v)
        if lo <= l and u <= hi:
            R[d] = (v, 0)
            return
        R[d] = (v, f_not(f_and(f_le(lo, v), f_le(v, hi))))
    return h


def mk_sat(s, op, a, b, d, w):
    M = (1 << w) - 1
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == "s" else (0, M)
    signed = s == "s"

    def h(st, R):
        x, y = iv_of(st, R[a], w, signed), iv_of(st, R[b], w, signed)
        v = l_add(x, y) if op == "add" else l_sub(x, y)
        if v.__class__ is int:
            R[d] = min(max(v, lo), hi) & M
            return
        v = lite(st, f_lt(v, lo), lo, v)
        v = lite(st, f_lt(hi, v), hi, v)
        R[d] = norm(v, w)
    return h


def lite(st, f, u, v):
    r = st.ctx.quick(f)
    if r is not None:
        return u if r else v
    r = st.ctx.decide(f)
    if r is not None:
        return u if r else v
    return simp_ite(st.ctx, f, u, v)


def mk_minmax(s, op, a, b, d, w):
    signed = s == "s"
    M = (1 << w) - 1

    def h(st, R):
        x, y = iv_of(st, R[a], w, signed), iv_of(st, R[b], w, signed)
        f = f_le(x, y)
        if op == "max":
            x, y = y, x
        if f.__class__ is not int and x.__class__ is int and y.__class__ is int and w == 64:
            r = st.ctx.decide(f)
            if r is None:
                raise Fork(f=f)
            f = int(r)
        R[d] = norm(lite(st, f, x, y), w)
    return h


def mk_cmp3(s, a, b, d, wr, w):
    signed = s == "s"
    M = (1 << wr) - 1

    def h(st, R):
        x, y = iv_of(st, R[a], w, signed), iv_of(st, R[b], w, signed)
        if x.__class__ is int and y.__class__ is int:
            R[d] = ((x > y) - (x < y)) & M
            return
        c = st.ctx
        g, l = f_lt(y, x), f_lt(x, y)
        rg, rl = c.quick(g), c.quick(l)
        g = l_bool(g) if rg is None else int(rg)
        l = l_bool(l) if rl is None else int(rl)
        R[d] = norm(l_sub(g, l), wr)
    return h


def mk_abs(a, d, w):
    def h(st, R):
        x = iv_of(st, R[a], w, True)
        if x.__class__ is int:
            R[d] = abs(x) & ((1 << w) - 1)
        else:
            R[d] = norm(lite(st, f_le(0, x), x, l_scale(x, -1)), w)
    return h


def mk_bits(k, a, d, w):
    def h(st, R):
        x = need_conc(st, R[a])
        if k == "ctpop":
            r = bin(x).count("1")
        elif k == "ctlz":
            r = w - x.bit_length()
        elif k == "cttz":
            r = (x & -x).bit_length() - 1 if x else w
        elif k == "bswap":
            r = int.from_bytes(x.to_bytes(w // 8, "little"), "big")
        else:
            r = int(bin(x)[2:].zfill(w)[::-1], 2)
        R[d] = r
    return h


def mk_fsh(k, A, d, w):
    def h(st, R):
        s = need_conc(st, R[A[2]]) % w
        x, y = R[A[0]], R[A[1]]
        if x.__class__ is int and y.__class__ is int:
            v = (x << w) | y
            R[d] = ((v << s) >> w if k == "l" else v >> s) & ((1 << w) - 1)
            return
        raise Unsupported("symbolic funnel shift")
    return h


# ---------------------------------------------------------------- memory
def st_alloc(st, size, zero=False):
    i = st.next
    st.next += 1
    st.mem[i] = Obj(size, st.tok, zero=zero)
    return i << 32


def get_obj(st, m, oid):
    o = st.mem.get(oid)
    if o is None:
        o = m.gobjs.get(oid)
    return o


def resolve(st, m, p, size, write=False):
    """(obj id, concrete offset) for pointer p; forks when the offset is symbolic"""
    if p.__class__ is not int:
        if p is UNDEF:
            raise MemError("access through undef pointer")
        p = need_conc(st, st.ctx.unsigned(p, 64))
    return p >> 32, p & LOW


def read(st, m, oid, off, size):
    o = st.mem.get(oid)
    if o is None:
        o = m.gobjs.get(oid)
        if o is None:
            raise MemError("read of %d bytes at dangling address %x:%d" % (size, oid, off))
    e = o.cells.get(off)
    if e is not None and e[0] == size:
        return e[1]
    if off + size > o.size:
        raise MemError("read of %d bytes at offset %d of a %d-byte object" % (size, off, o.size))
    return read_slow(st, o, off, size)


def find_cell(o, off):
    """the cell covering byte off: (start, size, value) or None"""
    for k in range(0, 17):
        e = o.cells.get(off - k)
        if e is not None:
            if e[0] > k:
                return off - k, e[0], e[1]
            if k:
                return None
    return None


def read_byte(st, o, off):
    c = find_cell(o, off)
    if c is None:
        return 0 if o.zero else UNDEF
    s, n, v = c
    return byte_of(st, v, off - s, n)


def byte_of(st, v, j, n):
    if v is UNDEF:
        return UNDEF
    if v.__class__ is int:
        return (v >> (8 * j)) & 255
    if v.__class__ is F:
        v = l_bool(v)
    if n == 1:
        return v
    c = st.ctx
    v = c.unsigned(v, 8 * n)
    if v.__class__ is int:
        return (v >> (8 * j)) & 255
    hi = c.floordiv(v, 1 << (8 * j)) if j else v
    if j == n - 1:
        return hi
    return l_sub(hi, l_scale(c.floordiv(v, 1 << (8 * (j + 1))), 256))


def read_slow(st, o, off, size):
    c = find_cell(o, off)
    if c is not None and c[0] == off and c[1] > size or c is not None and c[0] < off:
        s, n, v = c
        if s + n >= off + size:
            # inside one cell
            if v is UNDEF:
                return UNDEF
            if v.__class__ is int:
                return (v >> (8 * (off - s))) & ((1 << (8 * size)) - 1)
            if v.__class__ is F:
                v = l_bool(v)
            cx = st.ctx
            v = cx.unsigned(v, 8 * n)
            v = cx.floordiv(v, 1 << (8 * (off - s)))
            if s + n > off + size and v.__class__ is not int:
                v = l_sub(v, l_scale(cx.floordiv(v, 1 << (8 * size)), 1 << (8 * size)))
            elif v.__class__ is int:
                v &= (1 << (8 * size)) - 1
            return v
    acc = 0
    j = 0
    und = False
    while j < size:
        e = o.cells.get(off + j)
        if e is not None and e[0] <= size - j:
            v, n = e[1], e[0]
        else:
            v, n = read_byte(st, o, off + j), 1
        if v is UNDEF:
            return UNDEF
        if v.__class__ is F:
            v = l_bool(v)
        if v.__class__ is Lin:
            v = st.ctx.unsigned(v, 8 * n)
        acc = l_add(acc, l_scale(v, 1 << (8 * j)))
        j += n
    return acc


def wobj(st, oid, m):
    o = st.mem.get(oid)
    if o is None:
        g = m.gobjs.get(oid)
        if g is None:
            raise MemError("write to dangling address %x" % oid)
        if g.const:
            raise MemError("write to constant memory")
        o = Obj(g.size, st.tok)
        o.cells = dict(g.cells)
        st.mem[oid] = o
        return o
    if o.tok is not st.tok:
        n = Obj(o.size, st.tok, o.const, o.zero)
        n.cells = dict(o.cells)
        st.mem[oid] = n
        return n
    return o


def write(st, m, oid, off, size, v):
    o = wobj(st, oid, m)
    cells = o.cells
    e = cells.get(off)
    if e is not None and e[0] == size:
        cells[off] = (size, v)
        return
    if off + size > o.size:
        raise MemError("write of %d bytes at offset %d of a %d-byte object" % (size, off, o.size))
    clear(st, o, off, size)
    cells[off] = (size, v)


def clear(st, o, off, size):
    cells = o.cells
    # cell that straddles the start
    c = find_cell(o, off)
    if c is not None and c[0] < off:
        s, n, v = c
        del cells[s]
        for j in range(n):
            p = s + j
            if p < off or p >= off + size:
                cells[p] = (1, byte_of(st, v, j, n))
    if size <= 32:
        for p in range(off, off + size):
            e = cells.get(p)
            if e is not None:
                n, v = e
                del cells[p]
                if p + n > off + size:
                    for j in range(off + size - p, n):
                        cells[p + j] = (1, byte_of(st, v, j, n))
    else:
        for p in [q for q in cells if off <= q < off + size]:
            n, v = cells.pop(p)
            if p + n > off + size:
                for j in range(off + size - p, n):
                    cells[p + j] = (1, byte_of(st, v, j, n))


def table_load(st, m, p, size):
    """load through a symbolic pointer into a constant table"""
    c = st.ctx
    p = c.unsigned(p, 64)
    if p.__class__ is int:
        return read(st, m, p >> 32, p & LOW, size)
    lo, hi = c.iv(p)
    if lo == hi:
        return read(st, m, lo >> 32, lo & LOW, size)
    if lo >> 32 != hi >> 32:
        return None
    oid = lo >> 32
    o = st.mem.get(oid)
    if o is None:
        o = m.gobjs.get(oid)
    if o is None:
        return None
    if (hi & LOW) + size > o.size:
        # bounds not tight enough: ask the solver before calling it out of bounds
        if c.decide(f_le(p, (oid << 32) + o.size - size)) is not True:
            return None
        lo, hi = c.iv(p)
    g = 0
    for k in p.t.values():
        g = sym.gcd(g, k)
    n = (hi - lo) // g + 1
    if n > 5000:
        return None
    # align lo to the form's residue
    r = (p.c - lo) % g
    lo += r
    n = (hi - lo) // g + 1
    vals = []
    for i in range(n):
        v = read(st, m, oid, (lo & LOW) + i * g, size)
        if v.__class__ is not int:
            return None
        vals.append(v)
    if all(v == vals[0] for v in vals):
        return vals[0]
    # linear in the atoms?
    atoms = [(a, k, c.pb.get(a, (sym.ALO[a], sym.AHI[a]))) for a, k in p.t.items()]
    tot = 1
    for _, _, (x, y) in atoms:
        tot *= y - x + 1
    if tot <= 5000:
        base = {a: x for a, _, (x, y) in atoms}

        def at(env):
            return vals[(p.c + sum(k * env[a] for a, k, _ in atoms) - lo) // g]
        try:
            b0 = at(base)
            co = {}
            for a, k, (x, y) in atoms:
                if y > x:
                    e = dict(base)
                    e[a] = x + 1
                    co[a] = at(e) - b0
            import itertools
            ok = True
            for tup in itertools.product(*[range(x, y + 1) for _, _, (x, y) in atoms]):
                e = {a: v for (a, _, _), v in zip(atoms, tup)}
                if at(e) != b0 + sum(co.get(a, 0) * (e[a] - base[a]) for a in e):
                    ok = False
                    break
            if ok:
                return sym.mk({a: v for a, v in co.items() if v}, b0 - sum(v * base[a] for a, v in co.items()))
        except IndexError:
            pass
    runs = []
    for i, v in enumerate(vals):
        if runs and runs[-1][1] == v:
            runs[-1] = (lo + i * g, v)
        else:
            runs.append((lo + i * g, v))
    if len(runs) > 64:
        # linear in the index itself?
        s = vals[1] - vals[0]
        if all(vals[i] == vals[0] + s * i for i in range(n)):
            q = c.floordiv(l_sub(p, lo), g)
            return l_add(l_scale(q, s), vals[0])
    A = sym.atom("tab", (p.key(), p.c, tuple(runs)), (p, tuple(runs)), min(vals), max(vals))
    return Lin({A: 1}, 0)


def mk_load(ps, d, ty, m):
    if ty.k in ("int", "ptr"):
        size = ty.size()
        one = ty.k == "int" and ty.w == 1
        w = ty.w

        def h(st, R):
            p = R[ps]
            if p.__class__ is int:
                o = st.mem.get(p >> 32)
                if o is not None:
                    e = o.cells.get(p & LOW)
                    if e is not None and e[0] == size:
                        v = e[1]
                        if one and v.__class__ is Lin:
                            v = f_eq(v, 1)
                        R[d] = v
                        return
                v = read(st, m, p >> 32, p & LOW, size)
            else:
                v = table_load(st, m, p, size) if p is not UNDEF else None
                if v is None:
                    oid, off = resolve(st, m, p, size)
                    v = read(st, m, oid, off, size)
            if one and v.__class__ is Lin:
                v = f_eq(v, 1)
            elif w & 7 and v.__class__ is int:
                v &= (1 << w) - 1
            R[d] = v
        return h
    parts = list(_leaves(ty))

    def h(st, R):
        oid, off = resolve(st, m, R[ps], ty.size())
        R[d] = build(ty, lambda o, t: read(st, m, oid, off + o, t.size()))
    return h


def _leaves(ty, off=0):
    if ty.k in ("arr", "vec"):
        for j in range(ty.n):
            yield from _leaves(ty.el, off + j * ty.el.size())
    elif ty.k == "st":
        for o, f in zip(ty.offsets(), ty.fs):
            yield from _leaves(f, off + o)
    else:
        yield off, ty


def build(ty, rd, off=0):
    if ty.k in ("arr", "vec"):
        return tuple(build(ty.el, rd, off + j * ty.el.size()) for j in range(ty.n))
    if ty.k == "st":
        return tuple(build(f, rd, off + o) for o, f in zip(ty.offsets(), ty.fs))
    return rd(off, ty)


def mk_store(vs, ps, ty, m):
    if ty.k in ("int", "ptr"):
        size = ty.size()

        def h(st, R):
            v = R[vs]
            if v.__class__ is F:
                v = l_bool(v)
            p = R[ps]
            if p.__class__ is int:
                write(st, m, p >> 32, p & LOW, size, v)
            else:
                oid, off = resolve(st, m, p, size)
                write(st, m, oid, off, size, v)
        return h

    def h(st, R):
        oid, off = resolve(st, m, R[ps], ty.size())

        def put(t, v, o):
            if t.k in ("arr", "vec"):
                for j, x in enumerate(v):
                    put(t.el, x, o + j * t.el.size())
            elif t.k == "st":
                for fo, ft, x in zip(t.offsets(), t.fs, v):
                    put(ft, x, o + fo)
            elif v is not UNDEF:
                write(st, m, oid, o, t.size(), l_bool(v) if v.__class__ is F else v)
        put(ty, R[vs], off)
    return h


def mk_memcpy(ds, ss, ns, m):
    def h(st, R):
        n = R[ns]
        if n.__class__ is not int:
            n = need_conc(st, n)
        if n == 0:
            return
        s, d = R[ss], R[ds]
        if s.__class__ is not int and s is not UNDEF:
            # symbolic source: only into constant tables, byte by byte
            if n <= 64:
                bs = []
                for j in range(n):
                    v = table_load(st, m, l_add(s, j), 1)
                    if v is None:
                        break
                    bs.append(v)
                else:
                    oid, off = resolve(st, m, d, n)
                    for j, v in enumerate(bs):
                        write(st, m, oid, off + j, 1, v)
                    return
        so, sf = resolve(st, m, s, n)
        do, df = resolve(st, m, d, n)
        o = st.mem.get(so)
        if o is None:
            o = m.gobjs.get(so)
            if o is None:
                raise MemError("copy from dangling address")
        if sf + n > o.size:
            raise MemError("copy of %d bytes from offset %d of a %d-byte object" % (n, sf, o.size))
        items = []
        j = 0
        cells = o.cells
        if n > 256 and len(cells) * 2 < n:
            for q in sorted(x for x in cells if sf - 16 < x < sf + n):
                sz, v = cells[q]
                if q >= sf and q + sz <= sf + n:
                    items.append((q - sf, sz, v))
                else:
                    for t in range(sz):
                        if sf <= q + t < sf + n:
                            items.append((q + t - sf, 1, byte_of(st, v, t, sz)))
            if o.zero:
                raise Unsupported("large copy from zeroed memory")
        else:
            while j < n:
                e = cells.get(sf + j)
                if e is not None and e[0] <= n - j:
                    items.append((j, e[0], e[1]))
                    j += e[0]
                else:
                    v = read_byte(st, o, sf + j)
                    if v is not UNDEF:
                        items.append((j, 1, v))
                    j += 1
        w = wobj(st, do, m)
        if df + n > w.size:
            raise MemError("copy of %d bytes to offset %d of a %d-byte object" % (n, df, w.size))
        clear(st, w, df, n)
        for j, sz, v in items:
            w.cells[df + j] = (sz, v)
    return h


def mk_memset(ds, vs, ns, m):
    def h(st, R):
        n = need_conc(st, R[ns])
        if n == 0:
            return
        v = R[vs]
        do, df = resolve(st, m, R[ds], n)
        w = wobj(st, do, m)
        if df + n > w.size:
            raise MemError("fill of %d bytes at offset %d of a %d-byte object" % (n, df, w.size))
        # keep the existing cell structure where possible so that later typed accesses stay whole
        if v.__class__ is int:
            clear(st, w, df, n)
            j = 0
            while j < n:
                k = 4 if (df + j) % 4 == 0 and n - j >= 4 else 1
                w.cells[df + j] = (k, v * 0x01010101 if k == 4 else v)
                j += k
        else:
            clear(st, w, df, n)
            for j in range(n):
                w.cells[df + j] = (1, v)
    return h


def mk_memcmp(ps, qs, ns, d, m):
    def h(st, R):
        n = need_conc(st, R[ns])
        p, po = resolve(st, m, R[ps], n) if n else (0, 0)
        q, qo = resolve(st, m, R[qs], n) if n else (0, 0)
        r = 0
        for j in range(n):
            x, y = read(st, m, p, po + j, 1), read(st, m, q, qo + j, 1)
            f = f_eq(x, y) if not (x.__class__ is int and y.__class__ is int) else int(x == y)
            if f.__class__ is not int:
                t = st.ctx.decide(f)
                if t is None:
                    raise Fork(f=f)
                f = t
            if not f:
                g = f_lt(x, y)
                t = st.ctx.decide(g) if g.__class__ is not int else bool(g)
                if t is None:
                    raise Fork(f=g)
                r = -1 if t else 1
                break
        R[d] = r & 0xFFFFFFFF
    return h
