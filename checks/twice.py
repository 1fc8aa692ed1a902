"""Two runs over the same symbolic operands, compared (C17, C18, C19)."""
from checks.common import *
from checks.c09 import mul_cases, mul_operands, search_products
from checks.c10 import DivRem

OPS = ("add", "sub", "mul", "div", "rem")


def binary_cases(rng, n_add, n_mul, n_div, ops=OPS, pad=0.1, n_zero=150):
    """(op, case of that op's own generator)"""
    out = []
    prs = [(a, b) for a in shapes() for b in shapes() if (not a[2] and not b[2]) or rng.random() < pad]
    for op in ("add", "sub"):
        if op in ops:
            for a, b in sampled(rng, prs, n_add):
                s = rng.choice([(0, 0), (0, 1), (1, 0), (1, 1)])
                if a[0] + a[1] == 0 or b[0] + b[1] == 0:
                    s = (0, 0)
                out.append((op, *a, *b, *s))
    if "mul" in ops:
        plain, padded = mul_cases(rng, "quick", 1, 0, ((0, 0), (1, 0), (0, 1)))
        out += [("mul", *c) for c in sampled(rng, plain + padded, n_mul)]
    for op, pid in (("div", "C10"), ("rem", "C11")):
        if op in ops:
            d = DivRem(pid)
            cs = [c for c in d.cases("quick", rng) if c[0] in ("near", "any") or (c[0] == "layout" and len(c[8]) == c[1] + c[2] - c[4])]
            out += [(op, *c) for c in sampled(rng, cs, n_div)]
            z = []
            for a in shapes(False):
                for b in shapes(False):
                    z.append((op, "zero", *a, *b))
            out += sampled(rng, z, max(20, n_div // 8))
    for op in ops:
        z = [(op, k, a, b, rng.randrange(2)) for a in shapes() for b in shapes() if b[0] + b[1] and ((not a[2] and not b[2]) or rng.random() < pad)
             for k in (("zero l",) if op in ("div", "rem") else ("zero l", "zero r", "zeros"))]
        out += sampled(rng, z, n_zero)
    rng.shuffle(out)
    return out


def binary_operands(case):
    """l, r, extra digits, context, side condition"""
    op = case[0]
    ctx = Ctx()
    if case[1] in ("zero l", "zero r", "zeros"):
        a, b, n = case[2:]
        x = sdec("z", a[0] + a[2], a[1], 0, fixed={k: 0 for k in range(sum(a))})
        y = sdec("y", b[0] + b[2], b[1], 0, fixed={k: 0 for k in range(sum(b))}) if case[1] == "zeros" else shaped("y", b, n)
        if case[1] != "zeros":
            ctx.assume(y.nonzero())
        l, r = (y, x) if case[1] == "zero r" else (x, y)
        return l, r, (0, 1, 4, 13, 40)[sum(a + b) % 5], ctx, f_and(l.valid(), r.valid())
    if op in ("add", "sub"):
        a, b, (ln, rn) = case[1:4], case[4:7], case[7:9]
        l, r = shaped("l", a, ln), shaped("r", b, rn)
        for x in (l, r):
            if x.neg:
                ctx.assume(x.nonzero())
        return l, r, 0, ctx, f_and(l.valid(), r.valid())
    if op == "mul":
        l, r, _, _, _, _, ctx = mul_operands(case[1:])
        for x in (l, r):
            if x.neg:
                ctx.assume(x.nonzero())
        return l, r, 0, ctx, 1
    if case[1] == "zero":
        a, b = case[2:5], case[5:8]
        l = shaped("l", a, 0)
        r = sdec("r", b[0], b[1], 0, fixed={k: 0 for k in range(b[0] + b[1])})
        return l, r, 4, ctx, f_and(l.valid(), r.valid())
    world().M.apart = True
    l, r, incr = DivRem("C10" if op == "div" else "C11").operands(case[1:])
    return l, r, incr, ctx, 1


class Twice(Check):
    case_limit = (8, 100)
    timeout = 6000

    def two(self, R, ctx, valid, first, second, post, oracle, panics=False, compare=None):
        """first, second: (function, args). post(state after the first, its pointers, state after the second, its pointers) -> assertions.
        oracle(concrete args, answer 1, answer 2) -> what is wrong or None"""
        w = world()
        f1, a1 = first
        f2, a2 = second
        ask = Ask(self, R)

        def replay(env):
            l1, l2 = cmdline(f1, a1, env), cmdline(f2, a2, env)
            for (nm, p), (_, q) in zip(ask_native(l1), ask_native(l2)):
                e = None
                if not panics and not (p.ok and q.ok):
                    e = "%s / %s" % (p.text, q.text)
                else:
                    e = oracle([conc_arg(x, env) for x in a1], p, q)
                if e:
                    return "%s / %s: %s [%s]" % (l1, l2, e, nm), l1 + " ; " + l2
            return None
        st = w.M.start(f1, [], ctx)
        res, p1 = call(st, f1, a1)
        for s in res:
            if s.status != "ret":
                R.paths += 1
                R.outcomes[s.status] = R.outcomes.get(s.status, 0) + 1
                ask.reachable(s.ctx, valid, replay, "path ends in " + str(s.why))
                continue
            r2, p2 = call(s.copy(), f2, a2)
            R.paths += len(r2)
            for t in r2:
                R.outcomes[t.status] = R.outcomes.get(t.status, 0) + 1
                if t.status != "ret" and not panics:
                    ask.reachable(t.ctx, valid, replay, "path ends in " + str(t.why))
                    continue
                for what, f in post(s, p1, t, p2):
                    ask.holds(t.ctx, f, replay, what, valid)
        if compare and res:
            validate(self, R, f1, a1, res, p1, ctx, valid, compare)

    def search_products(self, ctx, env, bad, replay):
        return search_products(ctx, env, bad, replay)


def same_content(a, b, intg=True):
    fs = [("unit %d" % k, f_eq(x, y)) for k, (x, y) in enumerate(zip(a.u, b.u))]
    fs.append(("scale", f_eq(a.f, b.f)))
    fs.append(("sign", f_eq(a.neg, b.neg)))
    if intg:
        fs.append(("integer digits", f_eq(a.i, b.i)))
    return fs
