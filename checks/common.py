"""What every check shares: symbolic decimals, running a case, replaying a counterexample, evidence."""
import argparse
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from engine import build as BLD, exec as X, sym                                   # noqa: E402
from engine.native import Native, enc, dec                                        # noqa: E402
from engine.sym import (Lin, Ctx, Dead, SOLVER, STATS, f_and, f_or, f_not, f_imp, f_iff, f_eq, f_le, f_lt, l_add, l_sub,
                        l_scale, l_bool, l_mul, l_ite, inp, ev, ev_f)             # noqa: E402

B = 10 ** 9
SIZE = 40
RESET_RES = ([0] * 9, 1, 0, 0)
MAXU = 9


def lsum(*xs):
    r = 0
    for x in xs:
        r = l_add(r, x)
    return r


def ceil9(n):
    return (n + 8) // 9


# ------------------------------------------------------------------ world (one per process)
class World:
    def __init__(self, d):
        self.dir = d
        self.M = X.Machine(open(os.path.join(d, "fxd.ll")).read())
        self.dev = Native(os.path.join(d, "rdev"))
        self.rel = Native(os.path.join(d, "rrel"))


W = None


def world():
    global W
    if W is None:
        W = World(BLD.build())
    return W


# ------------------------------------------------------------------ decimals
class D:
    """a decimal operand: units (ints or forms), digit counts, sign (concrete 0/1)"""

    def __init__(self, u, i, f, neg, iu=None, fu=None):
        self.u, self.i, self.f, self.neg = list(u) + [0] * (MAXU - len(u)), i, f, neg
        self.iu = ceil9(i) if iu is None else iu
        self.fu = ceil9(f) if fu is None else fu

    def mag(self, fu=None):
        """magnitude scaled by B**fu"""
        fu = self.fu if fu is None else fu
        r = 0
        for k in range(self.iu + self.fu):
            r = l_add(r, l_scale(self.u[k], B ** (k - self.fu + fu)))
        return r

    def val(self, fu=None):
        m = self.mag(fu)
        return l_scale(m, -1) if self.neg else m

    def conc(self, env):
        return ([ev(x, env) for x in self.u], ev(self.i, env), ev(self.f, env), self.neg)

    def nonzero(self):
        fs = [f_le(1, x) for x in self.u[:self.iu + self.fu]]
        return f_or(*fs)

    def valid(self):
        """digit counts and units agree (needed only when i / f are symbolic)"""
        c = 1
        if self.i.__class__ is Lin:
            top = self.u[self.iu + self.fu - 1]
            c = f_and(c, f_or(*[f_and(f_eq(self.i, 9 * (self.iu - 1) + d), f_lt(top, 10 ** d)) for d in range(1, 10)]))
        if self.f.__class__ is Lin and self.u[0].__class__ is Lin:
            low = self.u[0]
            alts = []
            for d in range(1, 10):
                t = 10 ** (9 - d)
                if t == 1:
                    alts.append(f_eq(self.f, 9 * (self.fu - 1) + d))
                else:
                    q = Ctx().floordiv(low, t)
                    alts.append(f_and(f_eq(self.f, 9 * (self.fu - 1) + d), f_eq(low, l_scale(q, t))))
            c = f_and(c, f_or(*alts))
        elif self.f.__class__ is Lin:
            low = self.u[0]
            z = 0
            while z < 8 and low % 10 ** (z + 1) == 0:
                z += 1
            c = f_and(c, f_le(9 * self.fu - z, self.f))
        return c


def sdec(name, iu, fu, neg=0, i=None, f=None, lo_top=0, fixed=None, pad=0):
    """symbolic decimal with iu integer and fu fractional units; digit counts are concrete when given, otherwise any
    count with that number of units. pad: that many zero units more in front"""
    if pad:
        fixed = dict(fixed or {})
        for k in range(iu + fu, iu + fu + pad):
            fixed[k] = 0
    iu += pad
    u = []
    for k in range(iu + fu):
        hi = B - 1
        if k == iu + fu - 1 and iu and i is not None:
            hi = 10 ** (i - 9 * (iu - 1)) - 1
        lo = lo_top if k == iu + fu - pad - 1 else 0
        if fixed and k in fixed:
            u.append(fixed[k])
            continue
        if k == 0 and fu and f is not None and f % 9:
            t = 10 ** (9 - f % 9)
            u.append(l_scale(inp("%s.u%d" % (name, k), -(-lo // t), hi // t), t))
        else:
            u.append(inp("%s.u%d" % (name, k), lo, hi))
    if i is None:
        i = inp(name + ".intg", 9 * (iu - 1) + 1, 9 * iu) if iu else 0
    if f is None:
        f = inp(name + ".frac", 9 * (fu - 1) + 1, 9 * fu) if fu else 0
    return D(u, i, f, neg, iu, fu)


def cdec(v):
    u, i, f, n = v
    return D(u, i, f, n)


def put(st, d):
    p = X.st_alloc(st, SIZE)
    c = st.mem[p >> 32].cells
    for k in range(MAXU):
        c[4 * k] = (4, d.u[k])
    i = l_add(d.i, 128 * d.neg)
    c[36] = (1, i)
    c[37] = (1, d.f)
    return p


class Raw:
    """result decimal as forms"""

    def __init__(self, st, p):
        w = world()
        c = st.ctx
        self.st = st
        self.u = [rd(st, p, 4 * k, 4, True) for k in range(MAXU)]
        ib = rd(st, p, 36, 1, False)
        self.ib = ib
        self.f = rd(st, p, 37, 1, True)
        if ib.__class__ is int:
            self.i, self.neg = ib & 127, ib >> 7
        else:
            q = c.floordiv(ib, 128)
            self.neg = q
            self.i = l_sub(ib, l_scale(q, 128))

    def mag(self, fu, scale):
        """magnitude times B**scale, given its number of fractional units"""
        r = 0
        for k in range(MAXU):
            r = l_add(r, l_scale(self.u[k], B ** (k - fu + scale)))
        return r

    def conc(self, env):
        return ([ev(x, env) for x in self.u], ev(self.i, env), ev(self.f, env), ev(self.neg, env))


def rd(st, p, off, size, signed):
    v = X.read(st, world().M, p >> 32, off, size)
    if v is X.UNDEF:
        raise Undefined()
    if v.__class__ is sym.F:
        v = l_bool(v)
    w = 8 * size
    if v.__class__ is int:
        v &= (1 << w) - 1
        return X.sgn(v, w) if signed else v
    return st.ctx.signed(v, w) if signed else st.ctx.unsigned(v, w)


class Undefined(Exception):
    pass


# ------------------------------------------------------------------ concrete values (oracle side)
def c_units(v):
    return ceil9(v[1]), ceil9(v[2])


def c_scaled(v):
    """(signed integer, fractional units): value = integer / B**units, judged from all nine units"""
    u, i, f, n = v
    fu = ceil9(f)
    m = sum(x * B ** k for k, x in enumerate(u))
    return (-m if n else m), fu


def c_wf(v):
    """why v is not a well-formed stored decimal, or None"""
    u, i, f, n = v
    if f < 0 or f > 81:
        return "fractional digit count %d" % f
    iu, fu = c_units(v)
    if iu + fu > MAXU:
        return "%d+%d units" % (iu, fu)
    for k, x in enumerate(u):
        if not 0 <= x < B:
            return "unit %d holds %d" % (k, x)
        if k >= iu + fu and x:
            return "unit %d is beyond the digit counts but holds %d" % (k, x)
    if i % 9 and iu and u[iu + fu - 1] >= 10 ** (i % 9):
        return "integer part has more than the recorded %d digits" % i
    if f % 9 and u[0] % 10 ** (9 - f % 9):
        return "fractional part has more than the recorded %d digits" % f
    if n and not any(u):
        return "negative zero"
    return None


# ------------------------------------------------------------------ results of a case
class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.steps = 0
        self.posts = 0           # assertions decided
        self.queries = 0
        self.solver_s = 0.0
        self.intervals = 0
        self.unknown = []
        self.validated = 0
        self.forks = 0
        self.merges = 0
        self.fns = set()
        self.violation = None
        self.error = None
        self.wall = 0.0
        self.outcomes = {}
        self.sample = None


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class Check:
    """one property's run over its cases. Subclasses provide cases() and run_case(case, R)."""
    id = None
    name = None
    fn = None
    soft = False
    timeout = 20000
    case_limit = (40, 300)   # seconds, quick and thorough
    outside = []
    technique = "symbolic execution of the compiled code's LLVM IR, z3 deciding the assertion on every path"
    assumptions = ["rustc/LLVM front end: the IR produced with overflow checks and debug assertions means what the machine code does",
                   "heap allocation succeeds", "z3's unsat answers are correct"]

    def bounds(self, tier):
        return ""

    def cases(self, tier, rng):
        raise NotImplementedError

    def run_case(self, case, R):
        raise NotImplementedError

    # ---- oracle: how a native answer is judged
    def native(self, line):
        """runs one command line on both builds; yields (build, answer)"""
        w = world()
        for nm, n in (("checked build", w.dev), ("release build", w.rel)):
            yield nm, n.ask(line)


class Ask:
    """the assertions of one case"""

    def __init__(self, chk, R):
        self.chk, self.R = chk, R

    def holds(self, ctx, f, replay, what, extra=1):
        """f must hold on this path. replay(env) -> description of the reproduced failure or None"""
        R = self.R
        R.posts += 1
        if f.__class__ is int and f:
            return True
        if f.__class__ is not int and (ctx.quick(f) is True or ctx.quick2(f) is True):
            return True
        bad = f_not(f)
        r = SOLVER.check(ctx.node, bad)
        if r == "unsat":
            return True
        if extra.__class__ is not int:
            bad = f_and(bad, extra)
        r, env = SOLVER.model(ctx.node, bad)
        if r == "unsat":
            return True
        if r != "sat":
            R.unknown.append(what)
            return False
        self.confirm(ctx, env, bad, replay, what)
        return False

    def reachable(self, ctx, extra, replay, what):
        """this path must not be possible"""
        return self.holds(ctx, 0, replay, what, extra)

    def confirm(self, ctx, env, bad, replay, what):
        got = replay(env)
        if got is not None:
            raise Violation(what + ": " + got[0], got[1])
        if any(k in ("prod", "sdiv") for k in sym.AKIND):
            # products were relaxed: look for a model that respects them
            got = self.search_products(ctx, env, bad, replay)
            if got is not None:
                raise Violation(what + ": " + got[0], got[1])
            self.R.unknown.append(what + " (relaxed products)")
            return
        self.R.unknown.append("%s (the solver's example does not reproduce: %r)" % (what, {sym.aname(a): v for a, v in env.items() if sym.AKIND[a] == "in"}))

    def search_products(self, ctx, env, bad, replay):
        return None


# ------------------------------------------------------------------ running one entry point and deciding its assertions
class Out:
    """an output buffer of the entry point"""

    def __init__(self, size, zero=True):
        self.size, self.zero = size, zero


class Bytes:
    """an input byte string (forms)"""

    def __init__(self, b):
        self.b = list(b)

    def conc(self, env):
        return bytes(ev(x, env) for x in self.b)


def put_bytes(st, b):
    p = X.st_alloc(st, max(1, len(b)))
    c = st.mem[p >> 32].cells
    for k, x in enumerate(b):
        c[k] = (1, x)
    return p


def place(st, a):
    """argument(s) for the IR call"""
    if a.__class__ is D:
        return [put(st, a)]
    if a.__class__ is Out:
        return [X.st_alloc(st, a.size, zero=a.zero)]
    if a.__class__ is Bytes:
        return [put_bytes(st, a.b), len(a.b)]
    if a.__class__ is int:
        return [a & (1 << 64) - 1]
    return [a]


def text_arg(a, env):
    if a.__class__ is D:
        return enc(*a.conc(env))
    if a.__class__ is Bytes:
        return "b:" + a.conc(env).hex()
    if a.__class__ is Out:
        return None
    return "n:%d" % ev(a, env)


def conc_arg(a, env):
    if a.__class__ in (D, Bytes):
        return a.conc(env)
    if a.__class__ is Out:
        return None
    return ev(a, env)


def cmdline(fn, args, env):
    return " ".join([fn] + [t for t in (text_arg(a, env) for a in args) if t is not None])


class Ans:
    """a native answer"""

    def __init__(self, text):
        self.text = text
        w = text.split()
        self.ok = bool(w) and w[0] == "ok"
        if self.ok:
            self.code = int(w[1])
            self.dec = dec(w[2]) if len(w[2]) == 80 else None
            self.extra = w[3] if len(w) > 3 and w[3] != "-" else ""
            self.bytes = bytes.fromhex(self.extra)
            if len(self.extra) == 160:
                self.l, self.r = dec(self.extra[:80]), dec(self.extra[80:])


def ask_native(line):
    w = world()
    return [(nm, Ans(n.ask(line))) for nm, n in (("checked build", w.dev), ("release build", w.rel))]


def split_code(s, ty_signed=True):
    """the state once per value its (integer) result can have"""
    if s.ret is None or s.ret.__class__ is int:
        return [s]
    r = s.ret
    if r.__class__ is sym.F:
        r = l_bool(r)
    out = []
    for v in world().M.values(s, r):
        t = s.copy()
        try:
            t.ctx.assume(f_eq(r, v))
        except Dead:
            continue
        t.ret = v
        out.append(t)
    return out


def call(st, fn, args):
    """[final states] of one entry point; every state keeps .ptrs (first pointer of each argument)"""
    w = world()
    flat, ptrs = [], []
    for a in args:
        x = place(st, a)
        ptrs.append(x[0])
        flat += x
    out = []
    for s in w.M.call(st, fn, flat):
        out += split_code(s) if s.status == "ret" else [s]
    return out, ptrs


def drive(chk, R, fn, args, post, oracle, ctx=None, valid=1, compare=None, panics=False):
    """symbolic run of fn(args): every path end's assertions are decided.
    post(s, ptrs) -> [(what, formula)];  oracle(concrete args, answer) -> why it is wrong or None
    compare(s, ptrs, env, answer) -> disagreement between the encoding and the native run or None"""
    w = world()
    ctx = ctx or Ctx()
    st = w.M.start(fn, [], ctx)
    res, ptrs = call(st, fn, args)
    R.paths += len(res)
    ask = Ask(chk, R)

    def replay(env):
        line = cmdline(fn, args, env)
        a = [conc_arg(x, env) for x in args]
        for nm, ans in ask_native(line):
            e = ("%s instead of a result" % ans.text) if not ans.ok and not panics else oracle(a, ans)
            if e:
                return "%s(%s): %s [%s]" % (fn, ", ".join(map(repr, [x for x in a if x is not None])), e, nm), line
        return None
    for s in res:
        R.outcomes[s.status] = R.outcomes.get(s.status, 0) + 1
        if s.status != "ret" and not panics:
            ask.reachable(s.ctx, valid, replay, "path ends in " + str(s.why))
            continue
        for what, f in post(s, ptrs):
            ask.holds(s.ctx, f, replay, what, valid)
    if compare and res:
        validate(chk, R, fn, args, res, ptrs, ctx, valid, compare)
    return res, ptrs


def on_path(node, env):
    """the path condition holds for these inputs"""
    while node.p is not None:
        if not ev_f(node.f, env):
            return False
        node = node.p
    return True


def validate(chk, R, fn, args, res, ptrs, ctx, valid, compare):
    """one input of one path, run natively and compared with what the encoding says"""
    rng = random.Random(len(R.name) + sum(map(ord, R.name)))
    order = [s for s in res if s.status == "ret"]
    rng.shuffle(order)
    envs = []
    for s in order[:3]:
        for e in s.ctx.wit:
            if ev_f(valid, e):
                envs.append({a: v for a, v in e.items() if sym.AKIND[a] == "in"})
    if not envs:
        for s in order[:2]:
            q, env = SOLVER.model(s.ctx.node, valid)
            if env is not None:
                envs.append(env)
    rng.shuffle(envs)
    envs = envs[:4]
    for n in range(3):
        if envs:
            e = dict(envs[-1])
            for a in list(e):
                if rng.random() < 0.5:
                    e[a] = rng.randint(*ctx.iv(Lin({a: 1}, 0)))
            envs.append(e)
    for env in envs:
        for a in args:
            for x in (a.u + [a.i, a.f] if a.__class__ is D else a.b if a.__class__ is Bytes else [a]):
                if x.__class__ is Lin:
                    for t in x.t:
                        fill_env(t, env, ctx)
        if not ev_f(valid, env):
            continue
        for s in order:
            if on_path(s.ctx.node, env):
                line = cmdline(fn, args, env)
                ans = Ans(world().dev.ask(line))
                e = compare(s, ptrs, env, ans)
                if e:
                    raise RuntimeError("encoding disagrees with the native run: %s -> %s: %s" % (line, ans.text, e))
                R.validated += 1
                R.sample = "%s: e.g. %s -> %s" % (R.name, line, ans.text)
                return


def fill_env(a, env, ctx):
    """a value for an input the solver left open"""
    if a not in env and sym.AKIND[a] == "in":
        lo, hi = ctx.iv(Lin({a: 1}, 0))
        env[a] = lo


def cmp_result(arg):
    """compare callback: code and result decimal in argument number `arg`"""
    def f(s, ptrs, env, ans):
        if not ans.ok:
            return "no result"
        if s.ret is not None and (s.ret & 0xffffffff) != (ans.code & 0xffffffff):
            return "code %r" % s.ret
        mine = Raw(s, ptrs[arg]).conc(env)
        if mine != ans.dec:
            return "encoded %r, native %r" % (mine, ans.dec)
    return f


def in_class(x, k):
    """digit count x belongs to k units"""
    return f_and(f_le(9 * k - 8 if k else 0, x), f_le(x, 9 * k))


def unit_range(c, x, top=9):
    lo, hi = c.iv(x)
    return range(ceil9(max(lo, 0)), min(ceil9(max(hi, 0)), top) + 1)


def value_is(c, v, T, fu):
    """[(what, formula)]: result v is exactly T / B**fu (T signed)"""
    out = [("scale in range", f_and(f_le(0, v.f), f_le(v.f, 81)))]
    for k in unit_range(c, v.f):
        sc = max(k, fu)
        m = v.mag(k, sc)
        t = l_scale(T, B ** (sc - fu))
        out.append(("exact value", f_imp(in_class(v.f, k), signed_eq(v.neg, m, t))))
    return out


def signed_eq(neg, m, t):
    if neg.__class__ is int:
        return f_eq(l_scale(m, -1) if neg else m, t)
    return f_and(f_imp(f_eq(neg, 0), f_eq(m, t)), f_imp(f_eq(neg, 1), f_eq(l_scale(m, -1), t)))


def wf(c, v):
    """well-formedness of a result at unit level"""
    out = []
    for k in range(MAXU):
        out.append(("unit %d in range" % k, f_and(f_le(0, v.u[k]), f_lt(v.u[k], B))))
    out.append(("digit counts in range", f_and(f_le(0, v.f), f_le(v.f, 72), f_le(0, v.i), f_le(v.i, 81))))
    fs = []
    for k in unit_range(c, v.i):
        for j in unit_range(c, v.f, 8):
            here = f_and(in_class(v.i, k), in_class(v.f, j))
            if k + j > MAXU:
                fs.append(f_not(here))
                continue
            for q in range(k + j, MAXU):
                fs.append(f_imp(here, f_eq(v.u[q], 0)))
    out.append(("units beyond the digit counts are zero", f_and(*fs)))
    out += no_negzero(v)
    return out


def no_negzero(v):
    if v.neg.__class__ is not int or v.neg:
        return [("no negative zero", f_imp(f_eq(v.neg, 1), f_or(*[f_le(1, u) for u in v.u])))]
    return []


def wf_digits(c, v):
    """no digits beyond the recorded digit counts within the outermost units"""
    out = []
    for j in unit_range(c, v.f, 8):
        for d in range(1, 9):
            if j == 0:
                break
            n = 9 * (j - 1) + d
            here = f_eq(v.f, n)
            if c.quick(here) is False:
                continue
            t = 10 ** (9 - d)
            q = c.floordiv(v.u[0], t)
            out.append(("no digits beyond the scale", f_imp(here, f_eq(v.u[0], l_scale(q, t)))))
    for k in unit_range(c, v.i):
        for j in unit_range(c, v.f, 8):
            if k == 0 or k + j > MAXU:
                continue
            for d in range(1, 9):
                here = f_and(f_eq(v.i, 9 * (k - 1) + d), in_class(v.f, j))
                if c.quick(here) is False:
                    continue
                out.append(("no digits beyond the integer digit count", f_imp(here, f_lt(v.u[k + j - 1], 10 ** d))))
    return out


def l_max(a, b):
    return l_ite(f_le(a, b), b, a)


def shapes(pad=True, fmax=8):
    """(significant integer units, fractional units, zero units in front)"""
    return [(i, f, p) for i in range(0, 10) for f in range(0, fmax + 1) for p in range(0, 10 if pad else 1) if 0 < i + f + p <= MAXU]


def shaped(name, sh, neg=0, **kw):
    i, f, p = sh
    return sdec(name, i, f, neg, lo_top=int(i > 0), pad=p, **kw)


def sampled(rng, l, n):
    l = list(l)
    if len(l) <= n:
        return l
    return rng.sample(l, n)


def in_atoms():
    return [a for a in range(len(sym.AKIND)) if sym.AKIND[a] == "in"]


# ------------------------------------------------------------------ driver
CHK = None


def _init(chk):
    global CHK
    CHK = chk
    w = world()
    w.dev = Native(os.path.join(w.dir, "rdev"))
    w.rel = Native(os.path.join(w.dir, "rrel"))


def _one(case):
    chk = CHK
    R = Result(case_name(case))
    t0 = time.time()
    w = world()
    sym.reset_all()
    STATS.reset()
    SOLVER.timeout = chk.timeout
    SOLVER.s.set("timeout", chk.timeout)
    M = w.M
    M.used = set()
    M.apart = False
    M.soft = chk.soft
    X.LOG_DIV[0] = None
    s0, f0, m0 = M.steps, M.forks, M.merges
    signal.signal(signal.SIGALRM, too_long)
    sys.unraisablehook = lambda u: None
    # again and again: an alarm that goes off inside a destructor is lost
    ARMED[0] = True
    signal.setitimer(signal.ITIMER_REAL, chk.case_limit[chk.tier == "thorough"], 1)
    try:
        try:
            chk.run_case(case, R)
        finally:
            ARMED[0] = False
    except CaseTime:
        R.unknown.append("case abandoned after %ds at %s" % (chk.case_limit[chk.tier == "thorough"], where()))
    except Violation as e:
        R.violation = (e.what, e.replay)
    except Exception as e:
        if "CaseTime" in str(e):
            R.unknown.append("case abandoned after %ds" % chk.case_limit[chk.tier == "thorough"])
        else:
            R.error = "%s: %s" % (type(e).__name__, str(e)[:600])
        if R.error and not isinstance(e, X.EngineError):
            R.error += "\n" + traceback.format_exc()[-1500:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    R.steps = M.steps - s0
    R.forks = M.forks - f0
    R.merges = M.merges - m0
    R.queries = STATS.queries
    R.solver_s = STATS.solver_s
    R.intervals = STATS.decided_by_interval
    R.fns = set(M.used)
    R.wall = time.time() - t0
    return R


class CaseTime(BaseException):
    pass


ARMED = [False]


def too_long(sig, frame):
    if ARMED[0]:
        raise CaseTime()


def where():
    tb = sys.exc_info()[2]
    n = []
    while tb:
        n.append(tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return "<".join(reversed(n[-6:]))


def case_name(c):
    return " ".join(str(x) for x in c) if isinstance(c, (tuple, list)) else str(c)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except OSError:
        return {"findings": [], "fixed": []}


def demangle(n):
    import re
    m = re.match(r"_ZN(.*?)17h[0-9a-f]{16}E", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s:
        k = re.match(r"\d+", s)
        if not k:
            break
        n_ = int(k.group())
        out.append(s[k.end():k.end() + n_])
        s = s[k.end() + n_:]
    r = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("..", "::"), ("$C$", ","), ("$u5b$", "["),
                 ("$u5d$", "]"), ("$u7b$", "{"), ("$u7d$", "}")):
        r = r.replace(a, b)
    return r


def main(chk, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--only", default=None)
    ap.add_argument("--limit", type=float, default=None)
    ap.add_argument("--slow", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = a.limit or (700 if a.tier == "quick" else 3300)
    try:
        world()
    except BLD.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    tb = time.time() - t0
    chk.tier = a.tier
    cases = list(chk.cases(a.tier, random.Random(seed)))
    if a.only:
        cases = [c for c in cases if a.only in case_name(c)]
    ctx = mp.get_context("fork")
    results, skipped = [], 0
    viol = None
    errors = []
    pool = ctx.Pool(min(a.jobs, max(1, len(cases))), initializer=_init, initargs=(chk,))
    try:
        it = pool.imap_unordered(_one, cases, chunksize=1)
        for n in range(len(cases)):
            left = limit - (time.time() - t0)
            try:
                R = it.next(timeout=max(left, 0.1))
            except mp.TimeoutError:
                skipped = len(cases) - n
                break
            results.append(R)
            if a.slow and R.wall > 5:
                print("slow %.1fs %s paths=%d queries=%d solver=%.1f steps=%d" % (R.wall, R.name, R.paths, R.queries, R.solver_s, R.steps))
            if R.error:
                errors.append(R)
                if a.keep_going:
                    print("ERROR", R.name, R.error)
            if R.violation:
                if viol is None:
                    viol = R
                if a.keep_going:
                    print("violation", R.name, R.violation[0])
                else:
                    break
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    tot = lambda k: sum(getattr(r, k) for r in results)
    fns = set()
    unk = []
    outc = {}
    for r in results:
        fns |= r.fns
        unk += ["%s: %s" % (r.name, u) for u in r.unknown]
        for k, v in r.outcomes.items():
            outc[k] = outc.get(k, 0) + v
    status = 0
    replay = None
    if viol:
        status = 1
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        replay = os.path.join(VERIF, "evidence", "replay", "%s.json" % chk.id)
        json.dump({"property": chk.id, "case": viol.name, "what": viol.violation[0], "command": viol.violation[1],
                   "how": "feed `command` to the replay binaries built by `python3-vt -m engine.build` (rdev, rrel)"},
                  open(replay, "w"), indent=1)
    elif len(errors) * 2 > len(results) or not results:
        status = 2
    enc_f = sorted(demangle(f) for f in fns if "fxd" in f)
    other = len(fns) - len(enc_f)
    ev_ = {
        "property": chk.id,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [r.sample for r in results if r.sample][:6] or [r.name for r in results[:6]],
            "explanation": "states = symbolic path ends whose assertions were decided; transitions = IR instructions executed "
                           "symbolically; traces_validated = path models also run natively and compared with the encoding",
            "cases": len(results),
            "cases_not_reached_in_time": skipped,
            "assertions": tot("posts"),
            "assertions_undecided": len(unk),
            "undecided": unk[:20],
            "solver": "z3 " + ".".join(map(str, __import__("z3").get_version()[:3])),
            "solver_queries": tot("queries"),
            "solver_seconds": round(tot("solver_s"), 2),
            "branches_decided_by_interval": tot("intervals"),
            "forks": tot("forks"),
            "merges": tot("merges"),
            "functions_encoded": enc_f,
            "library_functions_encoded": other,
            "bounds": chk.bounds(a.tier),
            "outside_bounds": chk.outside,
            "path_outcomes": outc,
            "build_seconds": round(tb, 1),
            "violation": viol.violation[0] if viol else None,
            "cases_not_encoded": len(errors),
            "not_encoded": ["%s: %s" % (r.name, r.error) for r in errors[:5]],
        },
        "assumptions": chk.assumptions,
        "wall_s": round(wall, 1),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev_, open(os.path.join(VERIF, "evidence", chk.id + ".json"), "w"), indent=1)
    for f in known_findings()["findings"]:
        if f["property"] == chk.id and status == 0:
            print("KNOWN-FINDING: property=%s %s" % (chk.id, f["what"]))
    print("%s [%s] cases=%d skipped=%d paths=%d steps=%d posts=%d undecided=%d queries=%d solver=%.1fs validated=%d wall=%.1fs (build %.1fs)" % (
        chk.id, a.tier, len(results), skipped, tot("paths"), tot("steps"), tot("posts"), len(unk), tot("queries"),
        tot("solver_s"), tot("validated"), wall, tb))
    if unk:
        print("undecided e.g.:", unk[:3])
    if errors:
        print("%d cases could not be encoded" % len(errors))
        for r in errors[:3]:
            print("NOT ENCODED, case %s: %s" % (r.name, r.error))
    if viol:
        print("case %s: %s" % (viol.name, viol.violation[0]))
        print("VIOLATION property=%s replay=%s" % (chk.id, replay))
    return status
