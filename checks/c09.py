"""C09: multiplication."""
from checks.common import *


def digit_shapes(sh):
    """top-unit digit counts and scale positions an operand of that layout can have: (digits in the top unit, scale within its unit)"""
    i, f, p = sh
    return [d for d in range(1, 10)] if i else [-k for k in range(f + 1)], [k for k in range(1, 10)] if f else [0]


def dig_operand(name, sh, d, fr, neg):
    """operand with d digits in its top integer unit and 9*(fu-1)+fr fractional digits. d <= 0 (no integer part): -d fractional units in
    front are zero and the next is not; all zero when there are only -d"""
    i, f, p = sh
    F = 9 * (f - 1) + fr if f else 0
    I = 9 * (i - 1) + d if i else 0
    u = []
    for k in range(i + f):
        lo, hi = 0, B - 1
        if not i and k > f - 1 + d:
            u.append(0)
            continue
        if not i and k == f - 1 + d:
            lo = 1
        if i and k == i + f - 1:
            lo, hi = 10 ** (d - 1), 10 ** d - 1
        if k == 0 and f and fr < 9:
            t = 10 ** (9 - fr)
            u.append(l_scale(inp("%s.u0" % name, -(-lo // t), hi // t), t))
        else:
            u.append(inp("%s.u%d" % (name, k), lo, hi) if lo < hi else lo)
    u += [0] * p
    ip = 9 * (i + p - 1) + 1 if i + p else 0
    ii = inp(name + ".intg", max(ip, I), 9 * (i + p)) if i + p else 0
    if ii.__class__ is Lin and sym.ALO[next(iter(ii.t))] == sym.AHI[next(iter(ii.t))]:
        ii = max(ip, I)
    return D(u, ii, F, neg, i + p, f), I, F


def mul_cases(rng, tier, per, npad, signs=((0, 0), (1, 0))):
    plain, padded = [], []
    for a in shapes():
        for b in shapes():
            pd = a[2] or b[2]
            if pd and rng.random() > (0.06 if tier == "quick" else 0.4):
                continue
            ds = [(x, y) for x in digit_shapes(a)[0] for y in digit_shapes(b)[0]]
            fs = [(x, y) for x in digit_shapes(a)[1] for y in digit_shapes(b)[1]]
            picks = {((9 if a[0] else 0, 9 if b[0] else 0), fs[-1]), ((1 if a[0] else 0, 1 if b[0] else 0), fs[0])}
            for _ in range(per):
                picks.add((rng.choice(ds), rng.choice(fs)))
            for (d, f) in sorted(picks):
                s = rng.choice(signs)
                if (s[0] and a[0] + a[1] == 0) or (s[1] and b[0] + b[1] == 0):
                    s = (0, 0)
                (padded if pd else plain).append((*a, *b, d[0], d[1], f[0], f[1], *s))
    rng.shuffle(plain)
    rng.shuffle(padded)
    return plain, padded[:npad] if npad else padded


def mul_operands(case):
    dl, dr, fl, fr, ln, rn = case[6:12]
    l, li, lf = dig_operand("l", case[:3], dl, fl, ln)
    r, ri, rf = dig_operand("r", case[3:6], dr, fr, rn)
    ctx = Ctx()
    for x in (l, r):
        if not any(u.__class__ is Lin or u for u in x.u):
            x.neg = 0
    return l, r, li, lf, ri, rf, ctx


def sig_digits(v):
    u, i, f, n = v
    m = 0
    for k, x in enumerate(u):
        m += x * B ** k
    return len(str(m // B ** ceil9(f))) if m // B ** ceil9(f) else 0


def kept(F, I1, I2):
    """fractional digits the product has at least"""
    return min(F, 36, 9 * (MAXU - ceil9(I1 + I2)))


class Mul(Check):
    id = "C09"
    outside = ["negative zeros and digits beyond the recorded digit counts (not produced by any operation, see C16)"]

    def bounds(self, tier):
        return ("every pair of operand layouts (significant integer + fractional units <= 9), for each the extreme and sampled digit counts of "
                "the top unit and scales, padded layouts sampled; all unit values with those digit counts; loops unrolled completely (at most "
                "9 x 9 unit products). Unit products are opaque monomials with interval and McCormick bounds; the exact-value assertion is decided "
                "as a polynomial identity, the rest with those bounds")

    def cases(self, tier, rng):
        plain, padded = mul_cases(rng, tier, 1 if tier == "quick" else 12, 1500 if tier == "quick" else None)
        # the quick run takes a (seeded) sample
        return sampled(rng, plain + padded, 6000) if tier == "quick" else plain + padded

    def oracle(self, a, ans):
        l, r = a[:2]
        lv, lf = c_scaled(l)
        rv, rf = c_scaled(r)
        if ans.code == 3:
            return "Overflow" if sig_digits(l) + sig_digits(r) <= 65 else None
        if ans.code:
            return "unexpected error code %d" % ans.code
        v = ans.dec
        e = c_wf(v)
        if e:
            return "malformed result %r: %s" % (v, e)
        m, f = c_scaled(v)
        if lv == 0 or rv == 0:
            return None if m == 0 else "zero times something is %r" % (v,)
        F = l[2] + r[2]
        P = lv * rv * B ** f
        G = m * B ** (lf + rf)
        if (G > 0 and P < 0) or (G < 0 and P > 0):
            return "sign"
        P, G = abs(P), abs(G)
        if F <= 36 and sig_digits(l) + sig_digits(r) + F <= 65 and (G != P or v[2] != F):
            return "not exact: %r" % (v,)
        if v[2] > min(F, 36):
            return "scale %d" % v[2]
        if v[2] == F and G != P:
            return "not exact: %r" % (v,)
        if v[2] < kept(F, sig_digits(l), sig_digits(r)):
            return "only %d fractional digits kept" % v[2]
        if v[2] < F and v[2] % 9:
            return "cut at %d digits" % v[2]
        ulp = B ** (f + lf + rf)  # one, at the common scale
        if G > P or (P - G) * 10 ** v[2] >= 20 * ulp:
            return "off by too much: %r" % (v,)
        iu, fu = c_units(v)
        if iu and v[0][iu + fu - 1] == 0 and m:
            return "superfluous leading zero unit in %r" % (v,)
        return None

    def run_case(self, case, R):
        l, r, I1, F1, I2, F2, ctx = mul_operands(case)
        zl, zr = f_not(l.nonzero()), f_not(r.nonzero())
        nz = f_and(f_not(zl), f_not(zr))
        F = F1 + F2
        P = l_mul(l.mag(), r.mag())
        pf = l.fu + r.fu
        must = F <= 36 and I1 + I2 + F <= 65

        def post(s, ptrs):
            c = s.ctx
            if s.ret == 3:
                return [("Overflow only beyond 65 integer digits", int(I1 + I2 > 65))]
            if s.ret != 0:
                return [("error code %r" % s.ret, 0)]
            v = Raw(s, ptrs[2])
            out = []
            if c.quick(nz) is not True and c.decide(nz) is not True:
                m0 = [f_eq(x, 0) for x in v.u]
                out.append(("zero operand", f_imp(f_not(nz), f_and(*m0))))
                if c.decide(nz) is False:
                    return out + wf(c, v)
            lo, hi = c.iv(v.f)
            if lo != hi:
                vals = [x for x in range(lo, hi + 1) if c.decide(f_eq(v.f, x)) is not False]
            else:
                vals = [lo]
            for f in vals:
                here = f_and(f_eq(v.f, f), nz)
                if f > min(F, 36) or f < kept(F, I1, I2):
                    out.append(("scale", f_not(here)))
                    continue
                k = ceil9(f)
                sc = max(k, pf)
                m = v.mag(k, sc)
                T = l_scale(P, B ** (sc - pf))
                if must or f == F:
                    out.append(("exact", f_imp(here, f_eq(m, T))))
                    if f != F:
                        out.append(("scale of the exact product", f_not(here)))
                else:
                    if f % 9:
                        out.append(("cut at a unit boundary", f_not(here)))
                        continue
                    ulp = B ** (sc - k)
                    d = l_sub(T, m)
                    out.append(("cut, never above", f_imp(here, f_le(0, d))))
                    out.append(("cut by less than 20 units", f_imp(here, f_lt(d, 20 * ulp))))
                if k < MAXU:
                    for q in unit_range(c, v.i):
                        if 0 < q <= MAXU - k:
                            out.append(("no superfluous leading zero unit", f_imp(f_and(here, in_class(v.i, q), f_or(*[f_le(1, x) for x in v.u])), f_le(1, v.u[q + k - 1]))))
            neg = l.neg != r.neg
            out.append(("sign", f_eq(v.neg, 0) if not neg else f_imp(f_or(*[f_le(1, x) for x in v.u]), f_eq(v.neg, 1))))
            return out + wf(c, v)
        drive(self, R, "h_mul", [l, r, cdec(RESET_RES)], post, self.oracle, ctx, 1, cmp_result(2))

    def search_products(self, ctx, env, bad, replay):
        return search_products(ctx, env, bad, replay)


def search_products(ctx, env, bad, replay, tries=12):
    """products were relaxed to bounds in the failing query: fix one factor to the values of the model and ask again (then every product is
    linear), until a model replays"""
    rng = random.Random(7)
    ins = [a for a in range(len(sym.AKIND)) if sym.AKIND[a] == "in" and sym._z3var[a] is not None]
    rights = [a for a in ins if sym.aname(a).startswith("r.u")]
    lefts = [a for a in ins if sym.aname(a).startswith("l.u")]
    for n in range(tries):
        grp = rights if n % 2 == 0 else lefts
        if not grp:
            continue
        fix = []
        for a in grp:
            lo, hi = ctx.iv(Lin({a: 1}, 0))
            pick = env.get(a, lo)
            if n >= 2:
                pick = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, min(hi, lo + 10)), pick])
            fix.append(f_eq(Lin({a: 1}, 0), min(max(pick, lo), hi)))
        c2 = ctx.copy()
        r, e2 = model_products(c2, f_and(bad, *fix))
        if e2 is not None:
            got = replay(e2)
            if got is not None:
                return got
    # the nonlinear query itself
    r, e2 = model_products(ctx, bad)
    if e2 is not None:
        for a in ins:
            e2.setdefault(a, env.get(a, sym.ALO[a]))
        return replay(e2)
    return None


def model_products(ctx, f):
    """model of path and f with products meaning products (nonlinear, may fail)"""
    import z3
    SOLVER.sync(ctx.node)
    s = SOLVER.s
    s.push()
    SOLVER.asserted.append(set())
    SOLVER.has_prod.append(False)
    try:
        SOLVER._defs(f)
        s.add(sym.zf(f) if f.__class__ is not int else z3.BoolVal(bool(f)))
        for d in SOLVER.asserted:
            for a in d:
                if sym.AKIND[a] == "prod":
                    x, y = sym.ADEF[a][:2]
                    s.add(sym.zvar(a) == zprod(x) * zprod(y))
                elif sym.AKIND[a] in ("sdiv", "smod"):
                    x, y = sym.zlin(sym.ADEF[a][0]), sym.zlin(sym.ADEF[a][1])
                    s.add(z3.Implies(z3.And(y > 0, x >= 0), sym.zvar(a) == (x / y if sym.AKIND[a] == "sdiv" else x % y)))
        s.set("timeout", 4000)
        r = str(s.check())
        if r != "sat":
            return r, None
        m = s.model()
        env = {}
        for a in range(len(sym.AKIND)):
            if sym.AKIND[a] == "in" and sym._z3var[a] is not None:
                v = m.eval(sym._z3var[a], model_completion=True)
                env[a] = v.as_long()
        return r, env
    finally:
        s.set("timeout", SOLVER.timeout)
        s.pop()
        SOLVER.asserted.pop()
        SOLVER.has_prod.pop()


def zprod(x):
    if x.__class__ is int:
        return sym.zvar(x)
    return sym.zlin(x)


if __name__ == "__main__":
    sys.exit(main(Mul()))
