"""C12: rounding to nearest, halves away from zero.  C13: the two forms of rounding agree."""
from checks.common import *

FAR = [-82, -83, -99, -100, -127, -128, -129, -200, -255, -256, -257, -300, -512, -1000, -65536, -(1 << 31), -(1 << 32),
       -(1 << 32) - 1, -(1 << 63) + 1, -(1 << 63)]


def positions(sh):
    """rounding positions whose result fits the storage"""
    i, f, p = sh
    iu = i + p
    hi = 9 * (MAXU - iu)
    hi = min(hi, 72)
    return list(range(-9 * iu - 2, hi + 1))


def low_zero(c, u, m):
    """unit u is a multiple of 10**m"""
    t = 10 ** m
    return f_eq(u, l_scale(c.floordiv(u, t), t))


class Round(Check):
    outside = ["positions at which the result does not fit nine units (there is no way to report that)"]

    def __init__(self, pid):
        self.id = pid

    def bounds(self, tier):
        return ("every layout (integer + fractional units <= 9) without padding and a sample with padding, both signs, all unit values and "
                "digit counts; every rounding position from beyond the first integer digit to the last position that fits nine units, and "
                "%d positions far outside; loops unrolled completely" % len(FAR))

    def cases(self, tier, rng):
        plain, padded = [], []
        for sh in shapes():
            for n in positions(sh) + FAR:
                for neg in (0, 1):
                    if neg and sh[0] + sh[1] == 0:
                        continue
                    (padded if sh[2] else plain).append((*sh, n, neg))
        rng.shuffle(plain)
        rng.shuffle(padded)
        return plain + (padded[:3000] if tier == "quick" else padded)

    def run_case(self, case, R):
        sh, n, neg = case[:3], case[3], case[4]
        x = shaped("x", sh, neg)
        ctx = Ctx()
        if neg:
            ctx.assume(x.nonzero())
        # a carry out of nine full units is outside the domain: keep the value below what can be held
        nu = ceil9(n) if n > 0 else 0
        if x.iu + nu == MAXU:
            ctx.assume(f_lt(x.mag(), B ** (x.iu + x.fu) - B ** (x.iu + x.fu) // 2))
        if self.id == "C12":
            self.rounds(R, x, n, ctx, nu)
        else:
            self.agree(R, x, n, ctx)

    # ---- C12
    def oracle_val(self, a, n, v):
        e = c_wf(v)
        if e:
            return "malformed result %r: %s" % (v, e)
        m, f = c_scaled(a)
        m = abs(m)
        # nearest multiple of 10^-n, ties away: in units of 10^-(9f)
        if n >= a[2]:
            q, want = 1, m
        else:
            q = 10 ** (9 * f - max(n, -100))
            want = (2 * m + q) // (2 * q) * q
        g, gf = c_scaled(v)
        if abs(g) * B ** f != want * B ** gf:
            return "gives %r" % (v,)
        if g and (v[3] != a[3]):
            return "sign"
        if want == 0 and v[3]:
            return "negative zero"
        if v[2] != max(n, 0):
            return "scale %d" % v[2]
        return None

    def rounds(self, R, x, n, ctx, nu):
        def post(s, ptrs):
            c = s.ctx
            v = Raw(s, ptrs[0] if form == "h_round" else ptrs[1])
            out = [("scale", f_eq(v.f, max(n, 0)))]
            sc = max(nu, x.fu)
            M = x.mag(sc)
            m = v.mag(nu, sc)
            same = f_eq(m, M)
            q = 10 ** (9 * sc - max(n, -100))
            near = f_and(f_le(l_scale(m, 2), l_add(l_scale(M, 2), q)), f_lt(l_sub(l_scale(M, 2), q), l_scale(m, 2)))
            k = max(-n, 0)
            mult = [f_eq(v.u[j], 0) for j in range(min(k // 9, MAXU))]
            if k % 9 and k // 9 < MAXU:
                mult.append(low_zero(c, v.u[k // 9], k % 9))
            if n > 0 and n % 9:
                mult.append(low_zero(c, v.u[0], 9 - n % 9))
            out.append(("value kept", f_imp(f_le(x.f, n), same)))
            out.append(("nearest", f_imp(f_lt(n, x.f), near)))
            for g in mult:
                out.append(("multiple of the rounding unit", f_imp(f_lt(n, x.f), g)))
            if x.neg:
                out.append(("sign", f_or(f_eq(v.neg, 1), f_eq(m, 0))))
            else:
                out.append(("sign", f_eq(v.neg, 0)))
            return out + wf(c, v)

        for form in ("h_round", "h_round_to"):
            args = [x, n] if form == "h_round" else [x, cdec(RESET_RES), n]

            def oracle(a, ans):
                return self.oracle_val(a[0], n, ans.dec)
            drive(self, R, form, args, post, oracle, ctx.copy(), x.valid(), cmp_result(0 if form == "h_round" else 1))

    # ---- C13
    def agree(self, R, x, n, ctx):
        w = world()
        ask = Ask(self, R)
        st = w.M.start("h_round", [], ctx)
        valid = x.valid()
        keep = [0]
        res, ptrs = call(st, "h_round", [x, n])

        def replay(env):
            a = x.conc(env)
            l1, l2 = cmdline("h_round", [x, n], env), cmdline("h_round_to", [x, cdec(RESET_RES), n], env)
            for (nm, p), (_, q) in zip(ask_native(l1), ask_native(l2)):
                if not p.ok or not q.ok:
                    if p.ok != q.ok:
                        return "round(%r, %d): %s in place, %s into another [%s]" % (a, n, p.text, q.text, nm), l1 + " ; " + l2
                    return "round(%r, %d): %s [%s]" % (a, n, p.text, nm), l1
                if (p.dec[0], p.dec[2], p.dec[3]) != (q.dec[0], q.dec[2], q.dec[3]):
                    return "round(%r, %d): %r in place, %r into another [%s]" % (a, n, p.dec, q.dec, nm), l1 + " ; " + l2
                if dec(q.extra) != a:
                    return "round_to(%r, %d) changes its source [%s]" % (a, n, nm), l2
            return None
        for s in res:
            if s.status != "ret":
                ask.reachable(s.ctx, valid, replay, "path ends in " + str(s.why))
                continue
            v1 = Raw(s, ptrs[0])
            r2, p2 = call(s, "h_round_to", [x, cdec(RESET_RES), n])
            R.paths += len(r2)
            for t in r2:
                R.outcomes[t.status] = R.outcomes.get(t.status, 0) + 1
                if t.status != "ret":
                    ask.reachable(t.ctx, valid, replay, "path ends in " + str(t.why))
                    continue
                v2 = Raw(t, p2[1])
                src = Raw(t, p2[0])
                fs = [f_eq(a, b) for a, b in zip(v1.u + [v1.f, v1.neg], v2.u + [v2.f, v2.neg])]
                for k, f in enumerate(fs):
                    ask.holds(t.ctx, f, replay, "forms agree", valid)
                for a, b in zip(src.u + [src.f, src.i, src.neg], x.u + [x.f, x.i, x.neg]):
                    ask.holds(t.ctx, f_eq(a, b), replay, "source untouched", valid)


if __name__ == "__main__":
    sys.exit(main(Round(sys.argv.pop(1))))
