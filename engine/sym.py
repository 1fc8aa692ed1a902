"""Symbolic integers as (poly-)linear forms over atoms, formulas over them, path contexts, and the z3 back end.

A Lin is  c + sum(k_i * atom_i)  over the mathematical integers.  An LLVM value of type iW that is not concrete is
represented by a Lin congruent to it modulo 2^W; it is brought into the signed or unsigned window only where an
operation's meaning depends on it (division, comparison, extension).  Every atom is an input or has a total
definition in terms of earlier atoms, so the encoding is exact."""
import random
import time
from math import gcd
import z3


class Stats:
    def __init__(self):
        self.reset()

    def reset(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decided_by_interval = 0
        self.decided_by_witness = 0
        self.query_sat = 0
        self.query_unsat = 0


STATS = Stats()

# ---------------------------------------------------------------- atoms
AKIND = []   # 'in','div','bool','ite','tab','sdiv','prod'
ADEF = []
ALO = []
AHI = []
ANAME = []
_aintern = {}
_fintern = {}
FBOOL = {}   # formula id -> bool atom
_nodes = {}
_z3var = []
_z3def = {}


def reset_all():
    """forget every atom (between independent cases)"""
    for l in (AKIND, ADEF, ALO, AHI, ANAME, _z3var):
        del l[:]
    _aintern.clear()
    _fintern.clear()
    FBOOL.clear()
    _z3def.clear()
    F.nid = 0
    SOLVER.reset()
    Node.root = Node(None, None)
    WITS[:] = [Env(m) for m in range(NWIT)]


def new_atom(kind, defn, lo, hi, name=None):
    AKIND.append(kind)
    ADEF.append(defn)
    ALO.append(lo)
    AHI.append(hi)
    ANAME.append(name)
    _z3var.append(None)
    return len(AKIND) - 1


def atom(kind, key, defn, lo, hi):
    k = (kind, key)
    a = _aintern.get(k)
    if a is None:
        a = _aintern[k] = new_atom(kind, defn, lo, hi)
    return a


def inp(name, lo, hi):
    if lo == hi:
        return lo
    return Lin({new_atom("in", None, lo, hi, name): 1}, 0)


class Lin:
    __slots__ = ("t", "c", "_lo", "_hi", "_key")

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self._lo = None
        self._key = None

    def bounds(self):
        if self._lo is None:
            lo = hi = self.c
            for a, k in self.t.items():
                if k > 0:
                    lo += k * ALO[a]
                    hi += k * AHI[a]
                else:
                    lo += k * AHI[a]
                    hi += k * ALO[a]
            self._lo, self._hi = lo, hi
        return self._lo, self._hi

    def key(self):
        """terms only, without the constant"""
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __repr__(self):
        return "<%s>" % show(self)


def show(l):
    if isinstance(l, int):
        return str(l)
    if isinstance(l, F):
        return repr(l)
    return " + ".join(["%d*%s" % (k, aname(a)) for a, k in l.t.items()] + [str(l.c)])


def aname(a):
    return ANAME[a] or "%s%d" % (AKIND[a], a)


def mk(t, c):
    return Lin(t, c) if t else c


def l_add(a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a + b
        return Lin(b.t, b.c + a) if a else b
    if b.__class__ is int:
        return Lin(a.t, a.c + b) if b else a
    t = dict(a.t)
    for m, k in b.t.items():
        v = t.get(m, 0) + k
        if v:
            t[m] = v
        else:
            del t[m]
    return mk(t, a.c + b.c)


def l_sub(a, b):
    if b.__class__ is int:
        return a - b if a.__class__ is int else (Lin(a.t, a.c - b) if b else a)
    if a.__class__ is int:
        return Lin({m: -k for m, k in b.t.items()}, a - b.c)
    t = dict(a.t)
    for m, k in b.t.items():
        v = t.get(m, 0) - k
        if v:
            t[m] = v
        else:
            del t[m]
    return mk(t, a.c - b.c)


def l_scale(a, k):
    if a.__class__ is int:
        return a * k
    if k == 1:
        return a
    if k == 0:
        return 0
    return Lin({m: v * k for m, v in a.t.items()}, a.c * k)


def prod_atom(a, b):
    fa = ADEF[a] if AKIND[a] == "prod" else (a,)
    fb = ADEF[b] if AKIND[b] == "prod" else (b,)
    # boolean factors are idempotent
    fs = list(fa)
    for x in fb:
        if AKIND[x] == "bool" and x in fs:
            continue
        fs.append(x)
    fs = tuple(sorted(fs))
    if len(fs) == 1:
        return fs[0]
    k = ("prod", fs)
    r = _aintern.get(k)
    if r is None:
        lo, hi = ALO[fs[0]], AHI[fs[0]]
        for x in fs[1:]:
            c = [lo * ALO[x], lo * AHI[x], hi * ALO[x], hi * AHI[x]]
            lo, hi = min(c), max(c)
        if len(fs) == 2 and fs[0] == fs[1]:
            lo = max(lo, 0)
        r = _aintern[k] = new_atom("prod", fs, lo, hi)
    return r


def quotient_times(q, x, k):
    """k*q*x where q is a quotient by s*x + c, s dividing k: linear in dividend, remainder and q (None: not that)"""
    n, d = ADEF[q]
    s = d.t.get(x)
    if s is None or len(d.t) != 1 or k % s:
        return None
    g = gcd(s, d.c)
    if n.__class__ is int:
        g = gcd(g, n)
        r = n // g
    else:
        g = gcd(g, n.c, *n.t.values())
        r = Lin({a: v // g for a, v in n.t.items()}, n.c // g)
    r = atom("smod", (q,), (r, Lin({x: s // g}, d.c // g)), 0, max(d.bounds()[1] // g - 1, 0))
    w = l_sub(n, Lin({r: g}, 0))
    if d.c:
        w = l_sub(w, Lin({q: d.c}, 0))
    return l_scale(w, k // s)


def l_mul(a, b):
    if a.__class__ is int:
        return l_scale(b, a)
    if b.__class__ is int:
        return l_scale(a, b)
    t = {}
    more = 0
    for m, k in a.t.items():
        for n, j in b.t.items():
            if AKIND[m] == "sdiv" or AKIND[n] == "sdiv":
                w = None
                if AKIND[m] == "sdiv":
                    w = quotient_times(m, n, k * j)
                if w is None and AKIND[n] == "sdiv":
                    w = quotient_times(n, m, k * j)
                if w is not None:
                    more = l_add(more, w)
                    continue
            p = prod_atom(m, n)
            v = t.get(p, 0) + k * j
            if v:
                t[p] = v
            elif p in t:
                del t[p]
    for m, k in a.t.items():
        if b.c:
            v = t.get(m, 0) + k * b.c
            if v:
                t[m] = v
            elif m in t:
                del t[m]
    for n, j in b.t.items():
        if a.c:
            v = t.get(n, 0) + j * a.c
            if v:
                t[n] = v
            elif n in t:
                del t[n]
    return l_add(mk(t, a.c * b.c), more)


def l_same(a, b):
    d = l_sub(a, b)
    return d.__class__ is int and d == 0


# ---------------------------------------------------------------- formulas
class F:
    __slots__ = ("op", "a", "id", "_neg", "z")
    nid = 0

    def __repr__(self):
        if self.op in ("le", "eq", "ne"):
            return "(%s %s 0)" % (show(self.a), {"le": "<=", "eq": "==", "ne": "!="}[self.op])
        return "(%s %s)" % (self.op, " ".join(map(repr, self.a)))


def _mkf(op, key, a):
    k = (op, key)
    f = _fintern.get(k)
    if f is None:
        f = F()
        f.op, f.a = op, a
        F.nid += 1
        f.id = F.nid
        f._neg = None
        f.z = None
        _fintern[k] = f
    return f


def _gcd_terms(l):
    g = 0
    for k in l.t.values():
        g = gcd(g, k)
        if g == 1:
            break
    return g


def f_le0(l):
    """l <= 0; returns 0/1 or a formula"""
    if l.__class__ is int:
        return 1 if l <= 0 else 0
    lo, hi = l.bounds()
    if hi <= 0:
        return 1
    if lo > 0:
        return 0
    g = _gcd_terms(l)
    if g != 1:
        l = Lin({m: k // g for m, k in l.t.items()}, -((-l.c) // g))
        lo, hi = l.bounds()
        if hi <= 0:
            return 1
        if lo > 0:
            return 0
    if len(l.t) == 1:
        (a, k), = l.t.items()
        if AKIND[a] == "bool":
            # k*b + c <= 0, not decided: exactly one of b=0, b=1 satisfies
            return ADEF[a] if k + l.c <= 0 else f_not(ADEF[a])
    return _mkf("le", (l.key(), l.c), l)


def f_le(a, b):
    return f_le0(l_sub(a, b))


def f_lt(a, b):
    return f_le0(l_add(l_sub(a, b), 1))


def f_eq0(l):
    if l.__class__ is int:
        return 1 if l == 0 else 0
    lo, hi = l.bounds()
    if lo > 0 or hi < 0:
        return 0
    if lo == 0 and hi == 0:
        return 1
    g = _gcd_terms(l)
    if l.c % g:
        return 0
    k0 = l.key()[0][1]
    if k0 < 0:
        g = -g
    if g != 1:
        l = Lin({m: k // g for m, k in l.t.items()}, l.c // g)
    if len(l.t) == 1:
        (a, k), = l.t.items()
        if AKIND[a] == "bool":
            return ADEF[a] if l.c == -1 else f_not(ADEF[a])
    return _mkf("eq", (l.key(), l.c), l)


def f_eq(a, b):
    return f_eq0(l_sub(a, b))


def f_not(f):
    if f.__class__ is int:
        return 1 - f
    if f._neg is None:
        if f.op == "le":
            n = f_le0(l_sub(1, f.a))
        elif f.op == "eq":
            n = _mkf("ne", (f.a.key(), f.a.c), f.a)
        elif f.op == "ne":
            n = f_eq0(f.a)
        elif f.op == "and":
            n = f_or(*[f_not(x) for x in f.a])
        else:
            n = f_and(*[f_not(x) for x in f.a])
        f._neg = n
        if n.__class__ is not int:
            n._neg = f
    return f._neg


def f_and(*fs):
    out = {}
    for f in fs:
        if f.__class__ is int:
            if not f:
                return 0
            continue
        if f.op == "and":
            for g in f.a:
                out[g.id] = g
        else:
            out[f.id] = f
    if not out:
        return 1
    for g in out.values():
        n = f_not(g) if g.op in ("le", "eq", "ne") else None
        if n is not None and n.__class__ is not int and n.id in out:
            return 0
    if len(out) == 1:
        return next(iter(out.values()))
    key = tuple(sorted(out))
    return _mkf("and", key, tuple(out[i] for i in key))


def f_or(*fs):
    out = {}
    for f in fs:
        if f.__class__ is int:
            if f:
                return 1
            continue
        if f.op == "or":
            for g in f.a:
                out[g.id] = g
        else:
            out[f.id] = f
    if len(out) > 1:
        # a or (not a and b)  =  a or b
        for i, g in list(out.items()):
            if g.op == "and":
                rest = []
                for h in g.a:
                    n = f_not(h)
                    if n.__class__ is not int and n.id in out:
                        continue
                    rest.append(h)
                if len(rest) < len(g.a):
                    del out[i]
                    return f_or(f_and(*rest), *out.values())
    if not out:
        return 0
    for g in out.values():
        n = f_not(g) if g.op in ("le", "eq", "ne") else None
        if n is not None and n.__class__ is not int and n.id in out:
            return 1
    if len(out) == 1:
        return next(iter(out.values()))
    key = tuple(sorted(out))
    return _mkf("or", key, tuple(out[i] for i in key))


def f_imp(a, b):
    return f_or(f_not(a), b)


def f_iff(a, b):
    return f_and(f_imp(a, b), f_imp(b, a))


def f_xor(a, b):
    return f_not(f_iff(a, b))


def l_bool(f):
    """0/1 integer of a formula"""
    if f.__class__ is int:
        return f
    a = FBOOL.get(f.id)
    if a is not None:
        return Lin({a: 1}, 0)
    n = f_not(f)
    if n.__class__ is int:
        return 1 - n
    a = FBOOL.get(n.id)
    if a is not None:
        return Lin({a: -1}, 1)
    for g, sg in ((f, 1), (n, -1)):
        if g.op == "le" and len(g.a.t) > 1:
            # a truth value that is a carry or borrow: as a quotient it takes part in telescoping
            lo, hi = NOCTX.iv2(g.a)
            m = max(hi, 1 - lo)
            if 100 < m <= BASE:
                c = BASE
                while m * 10 <= c:
                    c //= 10
                A = NOCTX.floordiv(l_sub(c, g.a), c)
                if A.__class__ is Lin and A.c == 0 and list(A.t.values()) == [1] and AKIND[next(iter(A.t))] == "div":
                    a = FBOOL[g.id] = next(iter(A.t))
                    ALO[a], AHI[a] = max(ALO[a], 0), min(AHI[a], 1)
                    return A if sg > 0 else l_sub(1, A)
    a = FBOOL[f.id] = new_atom("bool", f, 0, 1)
    return Lin({a: 1}, 0)


BASE = 10 ** 9


def l_ite(f, A, B):
    """if f then A else B, over the integers"""
    if f.__class__ is int:
        return A if f else B
    d = l_sub(A, B)
    if d.__class__ is int:
        return l_add(B, l_scale(l_bool(f), d))
    la, ha = A.bounds() if A.__class__ is Lin else (A, A)
    lb, hb = B.bounds() if B.__class__ is Lin else (B, B)
    # products with a boolean keep identities linear when the difference is one plain atom times a constant
    ka = (f.id, A.key() if A.__class__ is Lin else None, A.c if A.__class__ is Lin else A,
          B.key() if B.__class__ is Lin else None, B.c if B.__class__ is Lin else B)
    return Lin({atom("ite", ka, (f, A, B), min(la, lb), max(ha, hb)): 1}, 0)


# ---------------------------------------------------------------- path conditions
class Node:
    __slots__ = ("p", "f", "d", "kids")
    root = None

    def __init__(self, p, f):
        self.p, self.f = p, f
        self.d = p.d + 1 if p else 0
        self.kids = {}

    def add(self, f):
        n = self.kids.get(f.id)
        if n is None:
            n = self.kids[f.id] = Node(self, f)
        return n


Node.root = Node(None, None)


class Dead(Exception):
    pass


class Env(dict):
    """concrete inputs (chosen when first asked for) and the values of atoms under them"""

    def __init__(self, mode, given=()):
        dict.__init__(self, given)
        self.mode = mode
        self.rng = random.Random(mode)

    def pick(self, a):
        lo, hi = ALO[a], AHI[a]
        m = self.mode
        r = self.rng.random()
        if m == 0:
            return lo
        if m == 1:
            return hi
        if m >= 6:
            if r < 0.6 or m == 6:
                return max(lo, 0) if hi >= 0 else hi
            if r < 0.9:
                return min(hi, max(lo, 10 ** self.rng.randint(0, 8)))
        if m == 2 or r < 0.5:
            return self.rng.randint(lo, hi)
        if r < 0.7:
            return min(hi, max(lo, 0) + int(self.rng.random() * 10))
        return lo if r < 0.85 else hi


NWIT = 12
WITS = [Env(m) for m in range(NWIT)]   # inputs tried before asking the solver


class Ctx:
    __slots__ = ("node", "pb", "facts", "cache", "wit")

    def __init__(self, o=None):
        if o is None:
            self.node = Node.root
            self.pb = {}
            self.facts = {}
            self.cache = {}
            self.wit = WITS
        else:
            self.wit = o.wit
            self.node = o.node
            self.pb = dict(o.pb)
            self.facts = dict(o.facts)
            self.cache = dict(o.cache)

    def copy(self):
        return Ctx(self)

    # -- intervals
    def iv(self, l):
        if l.__class__ is int:
            return l, l
        pb = self.pb
        lo = hi = l.c
        for a, k in l.t.items():
            b = pb.get(a)
            if b is None:
                x, y = ALO[a], AHI[a]
            else:
                x, y = b
            if k > 0:
                lo += k * x
                hi += k * y
            else:
                lo += k * y
                hi += k * x
        if lo != hi and len(l.t) > 1 and self.facts:
            k, s = l.key(), 1
            if k[0][1] < 0:
                k, s = tuple((m, -v) for m, v in k), -1
            fct = self.facts.get(k)
            if fct is not None:
                x, y = fct if s > 0 else (-fct[1], -fct[0])
                if x + l.c > lo:
                    lo = x + l.c
                if y + l.c < hi:
                    hi = y + l.c
        return lo, hi

    def iv2(self, l):
        """interval of l, using that R - c*floor(R/c) lies in [0, c-1] for the quotients in it, newest first"""
        lo, hi = self.iv(l)
        if lo == hi:
            return lo, hi
        lo, hi = self.elim(l, lo, hi, 0)
        if lo < hi:
            lo, hi = self.elim(l, lo, hi, 6)
        return lo, hi

    def elim(self, l, lo, hi, scalings):
        base_lo = base_hi = 0
        fac = 1
        rest = l
        done = None
        for n in range(60):
            if rest.__class__ is int:
                break
            pick = -1
            for a, k in rest.t.items():
                if a > pick and AKIND[a] == "div" and (done is None or a < done) and (scalings or k % ADEF[a][1] == 0):
                    pick = a
            if pick < 0:
                break
            done = pick
            R, c = ADEF[pick]
            k = rest.t[pick]
            m = c // gcd(c, k)
            if m > 1:
                scalings -= 1
                fac *= m
                base_lo *= m
                base_hi *= m
                rest = l_scale(rest, m)
                k *= m
            t = -(k // c)
            rest = l_sub(rest, l_scale(l_sub(R, Lin({pick: c}, 0)), t))
            if t > 0:
                base_hi += t * (c - 1)
            else:
                base_lo += t * (c - 1)
            x, y = self.iv(rest)
            x = -((-x - base_lo) // fac)
            y = (y + base_hi) // fac
            if x > lo:
                lo = x
            if y < hi:
                hi = y
            if lo >= hi:
                break
        return lo, hi

    # -- facts
    def assume(self, f):
        """adds f to the path condition"""
        if f.__class__ is int:
            if not f:
                raise Dead()
            return
        self.node = self.node.add(f)
        self.wit = [e for e in self.wit if ev_f(f, e)]
        self.learn(f, 0)

    def learn(self, f, depth):
        if f.__class__ is int:
            if not f:
                raise Dead()
            return
        self.cache[f.id] = True
        n = f_not(f)
        if n.__class__ is not int:
            self.cache[n.id] = False
        a = FBOOL.get(f.id)
        if a is not None:
            self.pb[a] = (1, 1)
        elif n.__class__ is not int:
            a = FBOOL.get(n.id)
            if a is not None:
                self.pb[a] = (0, 0)
        if depth > 12:
            return
        if f.op == "and":
            for g in f.a:
                self.learn(g, depth + 1)
        elif f.op == "le":
            self.learn_le(f.a, depth)
        elif f.op == "eq":
            self.learn_le(f.a, depth)
            self.learn_le(l_scale(f.a, -1), depth)
        elif f.op == "ne":
            l = f.a
            lo, hi = self.iv(l)
            if lo == 0:
                self.learn_le(l_sub(1, l), depth)
            if hi == 0:
                self.learn_le(l_add(l, 1), depth)
        elif f.op == "or":
            rest = [g for g in f.a if self.quick(g) is not False]
            if len(rest) == 1:
                self.learn(rest[0], depth + 1)
            elif not rest:
                raise Dead()

    def learn_le(self, l, depth):
        """l <= 0"""
        if l.__class__ is int:
            if l > 0:
                raise Dead()
            return
        t = l.t
        pb = self.pb
        if len(t) > 1:
            k, s = l.key(), 1
            if k[0][1] < 0:
                k, s = tuple((m, -v) for m, v in k), -1
            o = self.facts.get(k)
            lo, hi = o if o is not None else (None, None)
            if lo is None:
                lo, hi = self.iv2(Lin(dict(k), 0))
            if s > 0:
                hi = min(hi, -l.c)
            else:
                lo = max(lo, l.c)
            if lo > hi:
                raise Dead()
            self.facts[k] = (lo, hi)
        mn = l.c
        bs = []
        for a, k in t.items():
            b = pb.get(a)
            if b is None:
                b = (ALO[a], AHI[a])
            m = k * b[0] if k > 0 else k * b[1]
            mn += m
            bs.append((a, k, b, m))
        if mn > 0:
            raise Dead()
        for a, k, b, m in bs:
            rest = mn - m   # minimum of everything else incl. constant
            if k > 0:
                nh = (-rest) // k
                if nh < b[1]:
                    self.tighten(a, b[0], nh, depth)
            else:
                nl = -((-rest) // (-k))
                if nl > b[0]:
                    self.tighten(a, nl, b[1], depth)

    def tighten(self, a, lo, hi, depth):
        if lo > hi:
            raise Dead()
        o = self.pb.get(a)
        if o is not None:
            lo = max(lo, o[0])
            hi = min(hi, o[1])
            if lo > hi:
                raise Dead()
            if (lo, hi) == o:
                return
        self.pb[a] = (lo, hi)
        if depth > 8:
            return
        k = AKIND[a]
        if k == "bool":
            if lo == 1:
                self.learn(ADEF[a], depth + 1)
            elif hi == 0:
                self.learn(f_not(ADEF[a]), depth + 1)
        elif k == "div":
            L, c = ADEF[a]
            if lo > ALO[a]:
                self.learn_le(l_sub(c * lo, L), depth + 1)
            if hi < AHI[a]:
                self.learn_le(l_sub(L, c * hi + c - 1), depth + 1)

    # -- deciding
    def quick(self, f):
        if f.__class__ is int:
            return bool(f)
        r = self.cache.get(f.id)
        if r is not None:
            return r
        op = f.op
        if op == "le":
            lo, hi = self.iv(f.a)
            r = True if hi <= 0 else False if lo > 0 else None
        elif op == "eq" or op == "ne":
            lo, hi = self.iv(f.a)
            r = False if (lo > 0 or hi < 0) else True if lo == 0 and hi == 0 else None
            if op == "ne" and r is not None:
                r = not r
        elif op == "and":
            r = True
            for g in f.a:
                x = self.quick(g)
                if x is False:
                    r = False
                    break
                if x is None:
                    r = None
        else:
            r = False
            for g in f.a:
                x = self.quick(g)
                if x is True:
                    r = True
                    break
                if x is None:
                    r = None
        if r is not None:
            self.cache[f.id] = r
        return r

    def ask(self, f):
        """satisfiable together with the path? keeps the model as a witness"""
        if len(self.wit) > NWIT:
            return SOLVER.check(self.node, f, limit=BRANCH_MS)
        r, env = SOLVER.model(self.node, f, BRANCH_MS)
        if env is not None:
            e = Env(0, env)
            if not SOLVER.prod_used or (ev_f(f, e) and self.sat_by(e)):
                self.wit = self.wit + [e]
        return r

    def sat_by(self, env):
        n = self.node
        while n.p is not None:
            if not ev_f(n.f, env):
                return False
            n = n.p
        return True

    def quick2(self, f):
        """as quick, with the remainder bounds"""
        if f.__class__ is int:
            return bool(f)
        op = f.op
        if op in ("le", "eq", "ne"):
            l = f.a
            lo, hi = self.iv2(l)
            if op == "le":
                return True if hi <= 0 else False if lo > 0 else None
            r = False if (lo > 0 or hi < 0) else True if lo == 0 and hi == 0 else None
            return r if op == "eq" or r is None else not r
        und = False
        for g in f.a:
            x = self.quick(g)
            if x is None:
                x = self.quick2(g)
            if x is None:
                und = True
            elif x is (op == "or"):
                return x
        return None if und else op == "and"

    def decide(self, f):
        """True: f holds on this path; False: f cannot hold; None: both possible (or not known)"""
        r = self.quick(f)
        if r is not None:
            STATS.decided_by_interval += 1
            return r
        r = self.quick2(f)
        if r is not None:
            STATS.decided_by_interval += 1
            self.cache[f.id] = r
            return r
        t = u = False
        for e in self.wit:
            if ev_f(f, e):
                t = True
            else:
                u = True
            if t and u:
                STATS.decided_by_witness += 1
                return None
        n = f_not(f)
        a = self.ask(f) if not t else None
        if a == "unsat":
            r = False
        elif a == "unknown":
            pass
        elif not u and self.ask(n) == "unsat":
            r = True
        if r is not None:
            self.cache[f.id] = r
            try:
                self.learn(f if r else f_not(f), 4)
            except Dead:
                pass
        return r

    # -- arithmetic that may use what the path knows
    def floordiv(self, l, c):
        """floor(l / c), c > 0 concrete"""
        if l.__class__ is int:
            return l // c
        if c == 1:
            return l
        lo, hi = l.bounds()
        ql = lo // c
        if ql == hi // c:
            return ql
        q, r = {}, {}
        for a, k in l.t.items():
            d = k // c if k >= 0 else -((-k) // c)
            m = k - d * c
            if d:
                q[a] = d
            if m:
                r[a] = m
        qc, rc = divmod(l.c, c)
        if not r:
            return mk(q, qc)
        R = Lin(r, rc)
        lo, hi = self.iv(R)
        if lo // c == hi // c:
            return mk(q, qc + lo // c)
        for a, m in list(r.items()):
            s = -1 if m > 0 else 1
            r2 = dict(r)
            r2[a] = m + s * c
            lo2, hi2 = self.iv(Lin(r2, rc))
            if lo2 // c == hi2 // c:
                v = q.get(a, 0) - s
                if v:
                    q[a] = v
                else:
                    del q[a]
                return mk(q, qc + lo2 // c)
        if len(q) or qc:
            lo3, hi3 = self.iv(l)
            if lo3 // c == hi3 // c:
                return lo3 // c
        g = c
        for k in r.values():
            g = gcd(g, k)
            if g == 1:
                break
        if g > 1:
            r = {a: k // g for a, k in r.items()}
            rc //= g
            c //= g
            R = Lin(r, rc)
            if c == 1:
                return l_add(mk(q, qc), R)
        if len(r) == 1 and rc == 0:
            (a, k), = r.items()
            if k == 1 and AKIND[a] == "div":
                L2, c2 = ADEF[a]
                return l_add(mk(q, qc), self.floordiv(L2, c2 * c))
        A = _aintern.get(("div", (R.key(), R.c, c)))
        if A is None:
            lo, hi = NOCTX.iv2(R)
            A = atom("div", (R.key(), R.c, c), (R, c), lo // c, hi // c)
        plo, phi = self.iv2(R)
        plo //= c
        phi //= c
        if plo == phi:
            return mk(q, qc + plo)
        if plo > ALO[A] or phi < AHI[A]:
            o = self.pb.get(A)
            if o is None or o[0] < plo or o[1] > phi:
                self.pb[A] = (plo if o is None else max(plo, o[0]), phi if o is None else min(phi, o[1]))
        return l_add(mk(q, qc), Lin({A: 1}, 0))

    def unsigned(self, l, w):
        if l.__class__ is int:
            return l & ((1 << w) - 1)
        lo, hi = l.bounds()
        if lo >= 0 and hi < (1 << w):
            return l
        q = self.floordiv_win(l, 1 << w, 0)
        return l_sub(l, l_scale(q, 1 << w))

    def signed(self, l, w):
        h = 1 << (w - 1)
        if l.__class__ is int:
            l &= (1 << w) - 1
            return l - (1 << w) if l >= h else l
        lo, hi = l.bounds()
        if lo >= -h and hi < h:
            return l
        q = self.floordiv_win(l, 1 << w, h)
        return l_sub(l, l_scale(q, 1 << w))

    def floordiv_win(self, l, m, h):
        lo, hi = self.iv(l)
        if (lo + h) // m == (hi + h) // m:
            return (lo + h) // m
        lo, hi = self.iv2(l)
        if (lo + h) // m == (hi + h) // m:
            return (lo + h) // m
        # a solver query is cheaper than carrying a wrap-around atom through everything
        if hi - lo < 1 << 80:
            k = (lo + h) // m
            for kk in (k, k + 1, 0):
                inside = f_and(f_le(kk * m - h, l), f_le(l, kk * m + m - 1 - h))
                if self.decide(inside) is True:
                    return kk
        return self.floordiv(l_add(l, h), m)

    def concretize(self, l):
        lo, hi = self.iv(l)
        if lo == hi:
            return lo
        return None


NOCTX = Ctx()


def l_sdivpos(ctx, n, d):
    """floor(n/d) for n >= 0, d > 0, d symbolic"""
    nlo, nhi = ctx.iv(n)
    dlo, dhi = ctx.iv(d)
    if dlo == dhi:
        return ctx.floordiv(n, dlo)
    if nlo >= 0 and dlo > 0 and nlo // dhi == nhi // dlo:
        return nlo // dhi
    if n.__class__ is int:
        nb = (n, n)
        nk = (None, n)
    else:
        nb = n.bounds()
        nk = (n.key(), n.c)
    hi = max(nb[1], 0)
    A = atom("sdiv", (nk, d.key(), d.c), (n, d), 0, hi)
    # a quotient that fits one unit: n < d * unit, linear where the quotient itself is not
    for top in (10 ** 9, 1 << 31, 1 << 32):
        if hi < top:
            break
        if ctx.decide(f_lt(n, l_scale(d, top))) is True:
            ctx.pb[A] = (0, top - 1)
            break
    plo, phi = nlo // max(dhi, 1), nhi // max(dlo, 1)
    phi = min(phi, ctx.pb.get(A, (0, phi))[1])
    if plo > ALO[A] or phi < AHI[A]:
        ctx.pb[A] = (max(plo, 0), phi)
    return Lin({A: 1}, 0)


# ---------------------------------------------------------------- concrete evaluation
def ev(l, env):
    if l.__class__ is int:
        return l
    s = l.c
    for a, k in l.t.items():
        s += k * ev_atom(a, env)
    return s


def ev_atom(a, env):
    v = env.get(a)
    if v is not None:
        return v
    k = AKIND[a]
    d = ADEF[a]
    if k == "in":
        v = env.pick(a) if env.__class__ is Env else ALO[a]
    elif k == "div":
        v = ev(d[0], env) // d[1]
    elif k == "bool":
        v = 1 if ev_f(d, env) else 0
    elif k == "ite":
        v = ev(d[1], env) if ev_f(d[0], env) else ev(d[2], env)
    elif k == "prod":
        v = 1
        for x in d:
            v *= ev_atom(x, env)
    elif k == "sdiv":
        n, m = ev(d[0], env), ev(d[1], env)
        v = n // m if n >= 0 and m > 0 else 0
    elif k == "smod":
        n, m = ev(d[0], env), ev(d[1], env)
        v = n % m if n >= 0 and m > 0 else 0
    elif k == "tab":
        x = ev(d[0], env)
        v = d[1][-1][1]
        for th, val in d[1]:
            if x <= th:
                v = val
                break
    env[a] = v
    return v


def ev_f(f, env):
    if f.__class__ is int:
        return bool(f)
    if f.op == "le":
        return ev(f.a, env) <= 0
    if f.op == "eq":
        return ev(f.a, env) == 0
    if f.op == "ne":
        return ev(f.a, env) != 0
    if f.op == "and":
        return all(ev_f(g, env) for g in f.a)
    return any(ev_f(g, env) for g in f.a)


# ---------------------------------------------------------------- z3
_ivals = {}


def zi(n):
    v = _ivals.get(n)
    if v is None:
        v = z3.IntVal(n)
        if len(_ivals) < 20000:
            _ivals[n] = v
    return v


def zvar(a):
    v = _z3var[a]
    if v is None:
        v = _z3var[a] = z3.Int("x%d" % a)
    return v


def zlin(l):
    if l.__class__ is int:
        return zi(l)
    ts = []
    for a, k in l.t.items():
        ts.append(zvar(a) if k == 1 else zi(k) * zvar(a))
    if l.c:
        ts.append(zi(l.c))
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def zf(f):
    if f.__class__ is int:
        return z3.BoolVal(bool(f))
    if f.z is None:
        if f.op == "le":
            pos = [(a, k) for a, k in f.a.t.items() if k > 0]
            neg = [(a, -k) for a, k in f.a.t.items() if k < 0]
            L = zlin(mk(dict(pos), max(f.a.c, 0)))
            R = zlin(mk(dict(neg), max(-f.a.c, 0)))
            f.z = L <= R
        elif f.op == "eq":
            f.z = zlin(f.a) == 0
        elif f.op == "ne":
            f.z = zlin(f.a) != 0
        elif f.op == "and":
            f.z = z3.And(*[zf(g) for g in f.a])
        else:
            f.z = z3.Or(*[zf(g) for g in f.a])
    return f.z


def f_atoms(f, out):
    if f.__class__ is int:
        return
    if f.op in ("le", "eq", "ne"):
        out.update(f.a.t)
    else:
        for g in f.a:
            f_atoms(g, out)


def adef(a):
    """(constraints, atoms they mention)"""
    r = _z3def.get(a)
    if r is None:
        v = zvar(a)
        k, d = AKIND[a], ADEF[a]
        cs = []
        deps = set()
        if k not in ("bool",):
            cs.append(v >= zi(ALO[a]))
            cs.append(v <= zi(AHI[a]))
        if k == "div":
            L, c = d
            zl = zlin(L)
            cs.append(zi(c) * v <= zl)
            cs.append(zl <= zi(c) * v + zi(c - 1))
            deps.update(L.t)
        elif k == "bool":
            cs.append(v == z3.If(zf(d), zi(1), zi(0)))
            f_atoms(d, deps)
        elif k == "ite":
            f, A, B = d
            cs.append(v == z3.If(zf(f), zlin(A), zlin(B)))
            f_atoms(f, deps)
            for x in (A, B):
                if x.__class__ is Lin:
                    deps.update(x.t)
        elif k == "tab":
            L, runs = d
            zl = zlin(L)
            e = zi(runs[-1][1])
            for th, val in reversed(runs[:-1]):
                e = z3.If(zl <= zi(th), zi(val), e)
            cs.append(v == e)
            deps.update(L.t)
        elif k in ("sdiv", "smod"):
            n, m = d
            for x in (n, m):
                if x.__class__ is Lin:
                    deps.update(x.t)
            zn, zm = zlin(n), zlin(m)
            if k == "smod":
                g = z3.And(v < zm, v <= zn, z3.Implies(zn < zm, v == zn))
            else:
                lo, hi = m.bounds()
                lo = max(lo, 1)
                g = z3.And(zi(lo) * v <= zn, zn <= zi(hi) * v + zi(hi - 1), (v == 0) == (zn < zm))
            cs.append(z3.If(z3.And(zm > 0, zn >= 0), g, v == 0))
        elif k == "prod":
            deps.update(d)
            if len(d) == 2:
                x, y = d
                bx = [y_ for y_ in d if AKIND[y_] == "bool"]
                xl, xh, yl, yh = ALO[x], AHI[x], ALO[y], AHI[y]
                zx, zy = zvar(x), zvar(y)
                # McCormick envelope (implied by v == x*y)
                cs.append(v >= zi(xl) * zy + zi(yl) * zx - zi(xl * yl))
                cs.append(v >= zi(xh) * zy + zi(yh) * zx - zi(xh * yh))
                cs.append(v <= zi(xh) * zy + zi(yl) * zx - zi(xh * yl))
                cs.append(v <= zi(xl) * zy + zi(yh) * zx - zi(xl * yh))
        r = _z3def[a] = (cs, deps)
    return r


BRANCH_MS = 200   # a branch not decided in that time (with products) counts as possible both ways


class Solver:
    def __init__(self):
        self.timeout = 20000
        self.reset()

    def reset(self):
        self.s = z3.Solver()
        self.s.set("timeout", self.timeout)
        self.stack = []        # nodes
        self.asserted = [set()]
        self.has_prod = [False]
        self.memo = {}

    def _defs(self, f):
        todo = set()
        f_atoms(f, todo)
        done = self.asserted
        s = self.s
        new = done[-1]
        todo = list(todo)
        while todo:
            a = todo.pop()
            if a in new:
                continue
            hit = False
            for d in done:
                if a in d:
                    hit = True
                    break
            if hit:
                continue
            new.add(a)
            if AKIND[a] == "prod":
                self.has_prod[-1] = True
            cs, deps = adef(a)
            for c in cs:
                s.add(c)
            todo.extend(deps)

    def sync(self, node):
        chain = []
        n = node
        while n.p is not None:
            chain.append(n)
            n = n.p
        chain.reverse()
        st = self.stack
        i = 0
        while i < len(st) and i < len(chain) and st[i] is chain[i]:
            i += 1
        if len(st) > i:
            self.s.pop(len(st) - i)
            del st[i:]
            del self.asserted[i + 1:]
            del self.has_prod[i + 1:]
        for n in chain[i:]:
            self.s.push()
            st.append(n)
            self.asserted.append(set())
            self.has_prod.append(False)
            self._defs(n.f)
            self.s.add(zf(n.f))

    def check(self, node, f, want_model=False, limit=None):
        if f.__class__ is int:
            if not f:
                return "unsat"
            f = None
        k = (id(node), f.id if f is not None else 0)
        if not want_model:
            r = self.memo.get(k)
            if r is not None:
                return r[0]
        self.sync(node)
        t0 = time.time()
        self.s.push()
        self.asserted.append(set())
        self.has_prod.append(False)
        if f is not None:
            self._defs(f)
            self.s.add(zf(f))
        if limit is not None:
            self.s.set("timeout", limit if any(self.has_prod) else 5 * limit)
            r = str(self.s.check())
            self.s.set("timeout", self.timeout)
        else:
            r = str(self.s.check())
        STATS.queries += 1
        model = None
        if r == "sat":
            STATS.query_sat += 1
            if want_model:
                model = self.s.model()
        elif r == "unsat":
            STATS.query_unsat += 1
        else:
            STATS.unknown += 1
        self.prod_used = any(self.has_prod)
        self.s.pop()
        self.asserted.pop()
        self.has_prod.pop()
        STATS.solver_s += time.time() - t0
        self.memo[k] = (r, node)
        if want_model:
            return r, model
        return r

    def model(self, node, f=1, limit=None):
        """env of input atoms, or None"""
        r, m = self.check(node, f, True, limit)
        if r != "sat":
            return r, None
        env = {}
        for a in range(len(AKIND)):
            if AKIND[a] == "in" and _z3var[a] is not None:
                v = m.eval(_z3var[a], model_completion=False)
                if z3.is_int_value(v):
                    env[a] = v.as_long()
        return r, env


SOLVER = Solver()
