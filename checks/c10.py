"""C10, C11: division and remainder. The dividend is symbolic, and so are divisors of one unit and either the highest or the lower units of some longer ones."""
from math import gcd
from checks.common import *
from checks.c09 import search_products

EDGE = [1, 2, 3, 7, 10, 333333333, 499999999, 500000000, 500000001, 999999998, 999999999]


def dividend(name, i, f, p, z, dg, fr, neg, top=()):
    """i+f units (p zero units in front, z more leading units zero), dg digits in the first non-zero unit, 9*(f-1)+fr fractional digits;
    top: concrete values of the leading units"""
    n = i + f
    t = n - 1 - z
    u = []
    for k in range(n):
        if k > t:
            u.append(0)
            continue
        s = 10 ** (9 - fr) if k == 0 and f else 1
        if t - k < len(top):
            v = top[t - k]
            if v.__class__ is tuple:
                u.append(l_scale(inp("%s.u%d" % (name, k), v[1], v[1] + 7), s))
            else:
                u.append(v // s * s or (s if k == t else 0))
            continue
        lo, hi = 0, B - 1
        if k == t:
            lo, hi = 10 ** (dg - 1), 10 ** dg - 1
        x = inp("%s.u%d" % (name, k), -(-lo // s), hi // s)
        u.append(l_scale(x, s) if x.__class__ is Lin else x * s)
    iu = i + p
    sig = 9 * (t + 1 - f - 1) + dg if t >= f else 0
    if iu:
        if top and top[0].__class__ is int and t >= f:
            sig = 9 * (t - f) + len(str(u[t]))
        elif top and t >= f:
            sig = 9 * (t - f + 1)
        lo = max(9 * (iu - 1) + 1, sig)
        I = inp(name + ".intg", lo, 9 * iu)
    else:
        I = 0
    return D(u, I, 9 * (f - 1) + fr if f else 0, neg, iu, f)


def udec(units, i, f, p, fr, neg, extra=0):
    """concrete decimal out of its units"""
    u = list(units)
    if f and fr < 9:
        s = 10 ** (9 - fr)
        u[0] = u[0] // s * s
        if not any(u):
            u[0] = s
    n = i + f
    t = max([k for k in range(n) if u[k]] or [-1])
    sig = 9 * (t - f) + len(str(u[t])) if t >= f else 0
    iu = i + p
    I = max(9 * (iu - 1) + 1 + extra % 9, sig) if iu else 0
    return (tuple(u + [0] * (MAXU - len(u))), min(I, 9 * iu), 9 * (f - 1) + fr if f else 0, neg)


def any_divisor(i, f, p, fr, neg, dg):
    """a divisor whose only non-zero unit is the lowest one: any value of dg digits"""
    s = 10 ** (9 - fr) if f else 1
    x = inp("r.u0", -(-10 ** (dg - 1) // s), (10 ** dg - 1) // s)
    I = 9 * (i + p - 1) + 1 if i + p else 0
    return D([l_scale(x, s) if x.__class__ is Lin else x * s], max(I, dg if not f else 0), 9 * (f - 1) + fr if f else 0, neg, i + p, f)


def low_free(d, n):
    """d with its n lowest units symbolic"""
    u = list(d.u)
    for k in range(n):
        s = 10 ** (9 * d.fu - d.f) if k == 0 and d.fu else 1
        u[k] = l_scale(inp("r.u%d" % k, 0, (B - 1) // s), s)
    return D(u, d.i, d.f, d.neg, d.iu, d.fu)


def top_free(d, k):
    """d with its leading unit symbolic: the values that are normalized by a factor k"""
    u = list(d.u)
    t = max(n for n in range(MAXU) if u[n])
    u[t] = inp("r.u%d" % t, max(B // (k + 1), 1), B // k - 1)
    return D(u, 9 * d.iu, d.f, d.neg, d.iu, d.fu)


def int_of(v):
    return sum(x * B ** k for k, x in enumerate(v[0]))


class DivRem(Check):
    timeout = 8000
    case_limit = (8, 200)
    outside = ["divisors of several units in which neither the highest nor the lower units are concrete, and values of these other than the listed ones", "negative zeros and digits beyond the recorded digit counts (not "
               "produced by any operation, see C16)", "more symbolic quotient units than stated"]

    def __init__(self, pid):
        self.id = pid
        self.fn = {"C10": "h_div", "C11": "h_rem"}[pid]

    def bounds(self, tier):
        return ("dividend: symbolic units in every layout. (a) every pair of layouts, divisors with one non-zero unit in any place, concrete "
                "(1,2,3,7,10,333333333,499999999,500000000,500000001,999999998,999999999, powers of ten and seeded values), dividends reaching at most two quotient units; "
                "(b) divisors of 2..9 units with edge and seeded values, concrete, all dividends giving at most %d quotient units; (c) dividends next to a "
                "multiple of such a divisor (low unit symbolic), any layout; (d) every pair of layouts, divisors with one non-zero unit in the lowest place, symbolic too "
                "(any value of a given number of digits), up to 9 quotient units; (e) divisors of 3..9 units with the highest two or more units concrete and "
                "the others symbolic, at most %d quotient units; (f) divisors of 2..9 units with the highest unit symbolic, "
                "500000000..999999999 or another range with one normalization factor, the others concrete, at most 2 quotient units; extra digits 0..40 and some huge" % ((2, 1) if tier == "quick" else (3, 2)))

    def cases(self, tier, rng):
        quick = tier == "quick"
        out = []
        shp = [(i, f) for i in range(10) for f in range(9) if 0 < i + f <= 9]
        # (a) layouts
        for a in shp:
            for b in shp:
                for _ in range(1 if quick else 6):
                    out.append(self.layout(rng, a, b))
        rng.shuffle(out)
        # (b) values
        vals = []
        for n in range(2, 10):
            for m in range(2, n + 1):
                for _ in range(8 if quick else 40):
                    vals.append(self.values(rng, n, m, 2 if quick else 3))
        vals = [c for c in vals if c]
        rng.shuffle(vals)
        # (c) next to multiples
        near = []
        for a in shp:
            for b in shp:
                if a[0] + a[1] >= 2 and b[0] + b[1] >= 2 and rng.random() < (0.4 if quick else 1):
                    near.append(self.near(rng, a, b))
        near = [c for c in near if c]
        rng.shuffle(near)
        # (d) one-unit divisors, symbolic
        free = [self.any(rng, a, b) for _ in range(1 if quick else 8) for a in shp for b in shp]
        # (e) longer ones, the lower units symbolic
        low = []
        while len(low) < (80 if quick else 1200):
            n = rng.randint(3, 9)
            c = self.values(rng, n, rng.randint(max(3, n - (0 if quick else 1)), n), 1 if quick else 2)
            if c:
                t = max(k for k in range(MAXU) if c[9][0][k])
                if t > 1:
                    low.append(("low",) + c[1:9] + (c[9] + (rng.randint(1, t - 1),),) + c[10:])
        # (f) the highest unit symbolic
        high = []
        while len(high) < (100 if quick else 1500):
            k = rng.choice([1, 1, 1, rng.choice([2, 3, 7, 100, 333333333])])
            mq = 2 if k == 1 and (self.id == "C10" or not quick) else 1
            n = rng.randint(2, 9)
            c = self.values(rng, n, rng.randint(max(2, n - mq + 1), n), mq)
            if c and any(c[9][0][1:]):
                high.append(("top",) + c[1:9] + (c[9] + (k,),) + c[10:])
        mix = []
        for k in range(max(len(out), len(vals), len(near))):
            for l in (out, vals, near):
                if k < len(l):
                    mix.append(l[k])
        if quick:
            del mix[2600 if self.id == "C10" else 1600:]
        out = free + mix + low + high
        rng.shuffle(out)
        return out

    def incr(self, rng):
        return rng.choice([0, 0, 1, 4, 4, 9, 13, 30, 36, 40, 1000, 2 ** 31, 2 ** 63, 2 ** 64 - 1])

    def signs(self, rng):
        return rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)])

    def layout(self, rng, a, b):
        """divisor of one non-zero unit; symbolic: the dividend units that reach at most two units of a long quotient, all of them in a short division"""
        i, f = a
        n = i + f
        p = rng.choice([0] * 4 + [9 - n]) if n < 9 else 0
        z = rng.choice([0, 0, 0, rng.randrange(n)])
        j, g = b
        pb = rng.choice([0] * 4 + [9 - j - g]) if j + g < 9 else 0
        t = rng.randrange(j + g)
        u = [0] * (j + g)
        u[t] = rng.choice(EDGE + [rng.randrange(1, B), 10 ** rng.randrange(9)])
        dg, fr = rng.randint(1, 9), rng.choice([9, rng.randint(1, 9)])
        if f and n - 1 - z == 0 and dg <= 9 - fr:
            dg = 10 - fr
        s = self.signs(rng)
        r = udec(u, j, g, pb, rng.choice([9, rng.randint(1, 9)]), s[1])
        incr = self.incr(rng)
        if t == 0:
            return ("layout", i, f, p, z, dg, fr, s[0], (), r, incr)
        if self.id == "C10":
            fr_ = fr if f else 9
            have = 9 * (f + g)
            slack = 9 * f - (9 * (f - 1) + fr_ if f else 0) + 9 * g - r[2]
            sh = min(4, ceil9(have + max(0, incr - slack))) - f + g
        else:
            sh = g - f
        lim = 1 + t - sh                # highest symbolic unit
        if self.id == "C11" and rng.random() < 0.7:
            lim -= 1
        top = n - 1 - z
        con = []
        for k in range(top, max(lim, -1), -1):
            con.append(rng.choice([0, 0, 1, B - 1, rng.choice(EDGE), rng.randrange(B), rng.randrange(B)]))
        if con and not con[0]:
            con[0] = rng.choice(EDGE + [rng.randrange(1, B)])
        if f and len(con) == top + 1:   # the lowest unit: a few neighbouring values
            sc = 10 ** (9 - fr)
            lo = con[-1] // sc
            con[-1] = ("span", min(max(lo, 1), B // sc - 8))
        elif len(con) == top + 1:
            con[-1] = ("span", min(max(con[-1], 1), B - 8))
        return ("layout", i, f, p, z, dg, fr, s[0], tuple(con), r, incr)

    def values(self, rng, n, m, maxq):
        """n-unit dividend, m-unit divisor, integers or with fractions, few quotient units"""
        if n - m + 1 > maxq:
            return None
        kind = rng.randrange(4)
        if kind == 0:
            u = [rng.randrange(B) for _ in range(m - 1)] + [rng.randrange(1, B)]
        elif kind == 1:
            u = [rng.choice([0, B - 1]) for _ in range(m - 1)] + [rng.choice(EDGE)]
        elif kind == 2:
            u = [B - 1] * (m - 1) + [rng.choice(EDGE + [rng.randrange(B // 2, B)])]
        else:
            u = [rng.choice(EDGE + [0]) for _ in range(m - 1)] + [rng.choice(EDGE)]
        f = g = 0
        if self.id == "C11":
            f = rng.choice([0, 0, rng.randint(0, min(n, 8))])
            g = rng.choice([f, f, rng.randint(0, min(m, 8))])
            if (n - f) - (m - g) + max(f, g) * 0 + 1 > maxq:
                g = f
            if g > min(m, 8):
                f = g = 0
        elif n - m + 1 < maxq:
            f = rng.choice([0, 0, 1])
        dg = rng.randint(1, 9)
        s = self.signs(rng)
        r = udec(u, m - g, g, 0, rng.choice([9, rng.randint(1, 9)]), s[1])
        return ("values", n - f, f, 0, 0, dg, 9, s[0], (), r, 0)

    def near(self, rng, a, b):
        """leading dividend units those of a multiple of the divisor"""
        i, f = a
        j, g = b
        if self.id == "C10":
            while g and min(4, f + g) - f + g + 1 > 2:
                g, j = g - 1, j + 1
        n, m = i + f, j + g
        m2 = rng.randint(2, m)
        u = [rng.choice(EDGE + [0, rng.randrange(B), rng.randrange(B)]) for _ in range(m2 - 1)] + [rng.choice(EDGE + [rng.randrange(1, B)])] + [0] * (m - m2)
        r = udec(u, j, g, 0, rng.choice([9, rng.randint(1, 9)]), 0)
        d = int_of(r)
        w = B ** n
        qmax = (w - 1) // d
        if qmax < 1:
            return None
        q = rng.choice([1, qmax, rng.randint(1, qmax), rng.randint(1, min(qmax, 10 * B)), min(qmax, B), min(qmax, B - 1)])
        v = q * d - rng.choice([0, 0, 1, rng.randrange(1, B)])
        if v < B:
            return None
        us = []
        while v:
            us.append(v % B)
            v //= B
        k = len(us)
        z = n - k
        if z < 0:
            return None
        s = self.signs(rng)
        top = tuple(reversed(us[1:]))
        # keep the number of quotient units that depend on the symbolic unit small
        inc = self.incr(rng)
        if self.id == "C10":
            inc = 0
        elif g > f + 1:
            return None
        return ("near", i, f, 0, z, len(str(us[-1])), 9, s[0], top, r[:3] + (s[1],), inc)

    def any(self, rng, a, b):
        """one-unit divisor, symbolic as well"""
        i, f = a
        n = i + f
        p = rng.choice([0] * 4 + [9 - n]) if n < 9 else 0
        z = rng.choice([0, 0, rng.randrange(n)])
        j, g = b
        pb = rng.choice([0] * 4 + [9 - j - g]) if j + g < 9 else 0
        fr, gr = rng.choice([9, rng.randint(1, 9)]), rng.choice([9, rng.randint(1, 9)]) if g else 9
        dg, db = rng.randint(1, 9), rng.randint(10 - gr, 9)
        if f and n - 1 - z == 0 and dg <= 9 - fr:
            dg = 10 - fr
        s = self.signs(rng)
        return ("any", i, f, p, z, dg, fr, s[0], (), (j, g, pb, gr, s[1], db), self.incr(rng))

    def search_products(self, ctx, env, bad, replay):
        return search_products(ctx, env, bad, replay)

    def operands(self, case):
        kind, i, f, p, z, dg, fr, neg, top, r, incr = case
        return dividend("l", i, f, p, z, dg, fr, neg, top), any_divisor(*r) if kind == "any" else low_free(cdec(r[:4]), r[4]) if kind == "low" else top_free(cdec(r[:4]), r[4]) if kind == "top" else cdec(r), incr

    # ---- what is right
    def oracle(self, a, ans):
        l, r = a[:2]
        lv, lf = c_scaled(l)
        rv, rf = c_scaled(r)
        if rv == 0:
            return None if ans.code == 2 else "code %d for a zero divisor" % ans.code
        if ans.code == 2:
            return "DivisionByZero for a non-zero divisor"
        v = ans.dec
        if self.id == "C10":
            # |l| / |r| = N / M
            N, M = abs(lv) * B ** rf, abs(rv) * B ** lf
            if ans.code == 3:
                return None if N >= M * 10 ** 81 else "Overflow though the integer part has at most 81 digits"
            if ans.code:
                return "unexpected error code %d" % ans.code
            e = c_wf(v)
            if e:
                return "malformed result %r: %s" % (v, e)
            m, f = c_scaled(v)
            if lv == 0:
                return None if m == 0 else "zero divided gives %r" % (v,)
            q = N * 10 ** v[2] // M
            if abs(m) * 10 ** v[2] != q * B ** f:
                return "not the quotient cut off at %d digits: %r" % (v[2], v)
            if m and v[3] != (l[3] ^ r[3]):
                return "sign of %r" % (v,)
            want = self.min_scale(l[2], r[2], a[3], len(str(N // M)) if N >= M else 0)
            if v[2] > 36:
                return "%d fractional digits" % v[2]
            if v[2] < want:
                return "%d fractional digits, %d expected" % (v[2], want)
            return None
        if ans.code:
            return "unexpected error code %d" % ans.code
        e = c_wf(v)
        if e:
            return "malformed result %r: %s" % (v, e)
        m, f = c_scaled(v)
        sc = max(lf, rf, f)
        X, Y = abs(lv) * B ** (sc - lf), abs(rv) * B ** (sc - rf)
        if abs(m) * B ** (sc - f) != X % Y:
            return "not the remainder: %r" % (v,)
        if m and v[3] != l[3]:
            return "sign of %r" % (v,)
        if m and v[2] != max(l[2], r[2]):
            return "%d fractional digits instead of %d" % (v[2], max(l[2], r[2]))
        return None

    def min_scale(self, lf, rf, incr, digits):
        return min(lf + rf + incr, 36, 9 * (9 - ceil9(digits)))

    def run_case(self, case, R):
        l, r, incr = self.operands(case)
        world().M.apart = True
        if case[0] == "any" and r.u[0].__class__ is Lin:
            X.LOG_DIV[0] = "any"
            R_ = r.u[0]
        elif case[0] == "top":
            X.LOG_DIV[0] = "any"
            R_ = lsum(*[l_scale(x, B ** k) for k, x in enumerate(r.u)])
        else:
            top = max(k for k in range(MAXU) if r.u[k])
            nf = B // (r.u[top] + 1)
            d0 = sum(x * B ** k for k, x in enumerate(r.u) if x.__class__ is int) * nf // B ** top
            X.LOG_DIV[0] = d0 if top else r.u[0]
            R_ = lsum(*[l_scale(x, B ** k) for k, x in enumerate(r.u)])
        ctx = Ctx()
        args = [l, r, cdec(RESET_RES)] + ([incr] if self.id == "C10" else [])
        neg = l.neg ^ r.neg if self.id == "C10" else l.neg
        L = l.mag()

        def post_div(s, ptrs):
            c = s.ctx
            N, M = l_scale(L, B ** r.fu), l_scale(R_, B ** l.fu)
            if s.ret == 3:
                return [("Overflow only beyond 81 digits", f_le(l_scale(M, 10 ** 81), N))]
            if s.ret != 0:
                return [("error code %r" % s.ret, 0)]
            v = Raw(s, ptrs[2])
            out = []
            lo, hi = c.iv(v.f)
            for f in range(max(lo, 0), min(hi, 81) + 1):
                here = f_eq(v.f, f)
                if lo != hi and c.decide(here) is False:
                    continue
                k = ceil9(f)
                m = v.mag(k, k)
                ulp = 10 ** (9 * k - f)
                T = l_scale(N, B ** k)
                if ulp > 1:
                    q = c.floordiv(m, ulp)
                    out.append(("cut at the scale", f_imp(here, f_eq(m, l_scale(q, ulp)))))
                out.append(("quotient not above", f_imp(here, f_le(l_mul(m, M), T))))
                out.append(("quotient not below", f_imp(here, f_lt(T, l_mul(l_add(m, ulp), M)))))
                # scale: only the integer part may take its place
                for d in range(0, 10):
                    if self.min_scale(l.f, r.f, incr, 9 * d) > f:
                        # then the integer part must have more than 9*d digits
                        out.append(("scale", f_imp(here, f_le(l_scale(M, B ** d), N))))
            out.append(("at most 36 fractional digits", f_and(f_le(0, v.f), f_le(v.f, 36))))
            out.append(("sign", f_imp(f_or(*[f_le(1, x) for x in v.u]), f_eq(v.neg, neg))))
            return out + wf(c, v)

        def post_rem(s, ptrs):
            c = s.ctx
            if s.ret != 0:
                return [("error code %r" % s.ret, 0)]
            v = Raw(s, ptrs[2])
            out = []
            lo, hi = c.iv(v.f)
            want = max(l.f, r.f)
            for f in range(max(lo, 0), min(hi, 81) + 1):
                here = f_eq(v.f, f)
                if lo != hi and c.decide(here) is False:
                    continue
                k = ceil9(f)
                sc = max(l.fu, r.fu, k)
                m = v.mag(k, sc)
                P, Y = l_scale(L, B ** (sc - l.fu)), l_scale(R_, B ** (sc - r.fu))
                out.append(("remainder below the divisor", f_imp(here, f_lt(m, Y))))
                out.append(("differs from the dividend by a multiple", f_imp(here, multiple(s, l_sub(P, m), Y))))
                if f != want:
                    out.append(("fractional digits", f_imp(here, f_and(*[f_eq(x, 0) for x in v.u]))))
            out.append(("sign", f_imp(f_or(*[f_le(1, x) for x in v.u]), f_eq(v.neg, neg))))
            return out + wf(c, v)
        drive(self, R, self.fn, args, post_div if self.id == "C10" else post_rem, self.oracle, ctx, 1, cmp_result(2))


def multiple(s, x, y):
    """x is a multiple of y: some quotient fits. The quotient digits the code guessed are a good one to try, up to what it took back"""
    c = s.ctx
    if x.__class__ is int and y.__class__ is int:
        return int(x % y == 0)
    first = None
    for q in guesses(s, x, y):
        f = f_eq(x, l_mul(q, y))
        if first is None:
            first = f
        if c.decide(f) is True:
            return 1
    if first is not None:
        return first
    if y.__class__ is Lin:
        return f_eq(x, l_mul(X.udivrem(c, x, y), y))
    return f_eq(x, l_scale(c.floordiv(x, y), y))


def guesses(s, x, y):
    log, n = [], s.log
    while n is not None:
        log.append(n[0])
        n = n[1]
    log.reverse()
    envs = s.ctx.wit[:4]
    for n in range(len(log), -1, -1):
        q = lsum(*[l_scale(v, B ** (n - 1 - k)) for k, v in enumerate(log[:n])])
        if not envs:
            if n == len(log):
                for miss in (0, -1, -B, -B - 1):
                    yield l_add(q, miss)
            continue
        miss = set(ev(x, e) // ev(y, e) - ev(q, e) for e in envs)
        if len(miss) == 1:
            yield l_add(q, miss.pop())


if __name__ == "__main__":
    sys.exit(main(DivRem(sys.argv.pop(1))))
