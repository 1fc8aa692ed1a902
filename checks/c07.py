"""C07 / C08: addition and subtraction."""
from checks.common import *


def fits65(total, fmax, fu):
    """total / B**fu written with fmax fractional digits has at most 65 digits"""
    return f_lt(total, 10 ** 65 * 10 ** (9 * fu - fmax))


def pair_cases(rng, tier, npad, **kw):
    """operand layouts and signs; the padded ones are sampled"""
    plain, padded = [], []
    for a in shapes(**kw):
        for b in shapes(**kw):
            for s in ((0, 0), (0, 1), (1, 0), (1, 1)):
                if (s[0] and a[0] + a[1] == 0) or (s[1] and b[0] + b[1] == 0):
                    continue
                (padded if a[2] or b[2] else plain).append((*a, *b, *s))
    rng.shuffle(plain)
    rng.shuffle(padded)
    return plain, padded if npad is None else padded[:npad]


def operands(case):
    ln, rn = case[6:8]
    l, r = shaped("l", case[:3], ln), shaped("r", case[3:6], rn)
    ctx = Ctx()
    if ln:
        ctx.assume(l.nonzero())
    if rn:
        ctx.assume(r.nonzero())
    return l, r, ctx


class AddSub(Check):
    def __init__(self, pid):
        self.id = pid
        self.sub = pid == "C08"
        self.fn = "h_sub" if self.sub else "h_add"

    def bounds(self, tier):
        return ("every pair of operand layouts (significant integer units + fractional units <= 9) with every sign pair; layouts with "
                "zero units in front are sampled (quick) or taken completely as time allows (thorough); all unit values, all digit counts "
                "within the layout; loops unrolled completely (at most 9 units)")

    def cases(self, tier, rng):
        plain, padded = pair_cases(rng, tier, 2500 if tier == "quick" else None)
        return plain + padded

    def oracle(self, a, ans):
        l, r = a[:2]
        lv, lf = c_scaled(l)
        rv, rf = c_scaled(r)
        fu = max(lf, rf)
        lv *= B ** (fu - lf)
        rv *= B ** (fu - rf)
        t = lv - rv if self.sub else lv + rv
        F = max(l[2], r[2])
        if ans.code == 3:
            if max(abs(t), abs(lv), abs(rv)) * 10 ** F < 10 ** 65 * B ** fu:
                return "Overflow although operands and exact result have at most 65 digits"
            return None
        if ans.code:
            return "unexpected error code %d" % ans.code
        v = ans.dec
        e = c_wf(v)
        if e:
            return "malformed result %r: %s" % (v, e)
        m, f = c_scaled(v)
        if m * B ** fu != t * B ** f:
            return "wrong value %r" % (v,)
        want = [F]
        if lv == 0 != rv:
            want.append(r[2])
        if rv == 0 != lv:
            want.append(l[2])
        if v[2] not in want or (lv == 0 != rv and v[2] != r[2]) or (rv == 0 != lv and v[2] != l[2]):
            return "scale %d instead of %r" % (v[2], want)
        return None

    def run_case(self, case, R):
        l, r, ctx = operands(case)
        fu = max(l.fu, r.fu)
        rv = r.val(fu)
        T = l_sub(l.val(fu), rv) if self.sub else l_add(l.val(fu), rv)
        zl, zr = f_not(l.nonzero()), f_not(r.nonzero())

        def post(s, ptrs):
            c = s.ctx
            if s.ret == 3:
                # the larger scale is symbolic within its unit class; the smallest one asks for the most
                fmin = max(c.iv(l.f)[0], c.iv(r.f)[0])
                fit = f_and(*[fits65(x, fmin, fu) for x in (T, l_scale(T, -1), l.mag(fu), r.mag(fu))])
                return [("Overflow only beyond 65 digits", f_not(fit))]
            if s.ret != 0:
                return [("error code %r" % s.ret, 0)]
            v = Raw(s, ptrs[2])
            out = value_is(c, v, T, fu)
            mx = f_eq(v.f, l_max(l.f, r.f))
            out.append(("scale", f_or(mx, f_and(zl, f_not(zr), f_eq(v.f, r.f)), f_and(zr, f_not(zl), f_eq(v.f, l.f)))))
            out.append(("scale, zero operand", f_and(f_imp(f_and(zl, f_not(zr)), f_eq(v.f, r.f)), f_imp(f_and(zr, f_not(zl)), f_eq(v.f, l.f)))))
            return out + wf(c, v)
        drive(self, R, self.fn, [l, r, cdec(RESET_RES)], post, self.oracle, ctx, f_and(l.valid(), r.valid()), cmp_result(2))


if __name__ == "__main__":
    sys.exit(main(AddSub(sys.argv.pop(1))))
