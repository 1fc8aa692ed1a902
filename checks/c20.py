"""C20: division by zero is reported, exactly for zero divisors."""
from checks.common import *
from checks.c10 import dividend, udec

INCR = [0, 1, 4, 9, 36, 1000, 2 ** 31, 2 ** 64 - 1]


def all_shapes():
    return [(i, f) for i in range(10) for f in range(9) if i + f <= MAXU]


class DivZero(Check):
    id = "C20"
    outside = ["non-zero dividends by divisors other than one unit of any value next to the others zero"]

    def bounds(self, tier):
        return ("zero divisors: every layout, any digit counts in it, against every dividend layout with any unit values (division and remainder); zero dividends of every "
                "layout against every divisor layout with any non-zero unit values; non-zero divisors: every layout with one non-zero unit (any position, value 1..8 or edge) "
                "against dividends of one to eight in the top unit; loops unrolled completely")

    def cases(self, tier, rng):
        out = []
        for a in all_shapes():
            for b in all_shapes():
                if b[0] + b[1]:
                    for fn in ("h_div", "h_rem"):
                        out.append(("zero divisor", fn, *a, *b, rng.choice(INCR), rng.randrange(2)))
                        if a[0] + a[1]:
                            out.append(("zero dividend", fn, *b, *a, rng.choice(INCR), rng.randrange(2)))
        for b in all_shapes():
            for t in range(b[0] + b[1]):
                for fn in ("h_div", "h_rem"):
                    a = rng.choice(all_shapes()[1:])
                    out.append(("tiny", fn, *a, *b, rng.choice(INCR), rng.choice([1, 2, 9, 500000000, B - 1]), t))
        rng.shuffle(out)
        return out

    def oracle(self, a, ans):
        l, r = a[:2]
        z = not any(r[0])
        if z:
            return None if ans.code == 2 else "code %d for a zero divisor" % ans.code
        if ans.code == 2:
            return "DivisionByZero for a non-zero divisor"
        if not any(l[0]):
            if ans.code:
                return "code %d for a zero dividend" % ans.code
            if any(ans.dec[0]) or ans.dec[3]:
                return "zero divided gives %r" % (ans.dec,)
        return None

    def run_case(self, case, R):
        kind, fn, i, f, j, g, incr, x = case[:8]
        ctx = Ctx()
        if kind == "zero divisor":
            l = shaped("l", (i, f, 0), x) if i + f else cdec(([0] * 9, 0, 0, 0))
            if x and i + f:
                ctx.assume(l.nonzero())
            elif not i + f:
                l.neg = 0
            r = sdec("r", j, g, 0, fixed={k: 0 for k in range(j + g)})
        elif kind == "zero dividend":
            l = sdec("l", i, f, 0, fixed={k: 0 for k in range(i + f)})
            r = sdec("r", j, g, x)
            ctx.assume(r.nonzero())
        else:
            n = i + f
            l = dividend("l", i, f, 0, 0, 9, 9, 0, tuple([("span", 1)] + [0] * (n - 1)))
            u = [0] * (j + g)
            u[case[8]] = x
            r = cdec(udec(u, j, g, 0, 9, 0))
        valid = f_and(l.valid(), r.valid())

        def post(s, ptrs):
            if kind == "zero divisor":
                return [("division by zero is reported", int(s.ret == 2))]
            out = [("a non-zero divisor is not zero", int(s.ret != 2))]
            if kind == "zero dividend":
                v = Raw(s, ptrs[2])
                out += [("zero divided by anything is a result", int(s.ret == 0))] + [("zero", f_eq(u, 0)) for u in v.u + [v.neg]]
            return out
        drive(self, R, fn, [l, r, cdec(RESET_RES)] + ([incr] if fn == "h_div" else []), post, self.oracle, ctx, valid,
              None if kind == "zero divisor" else cmp_result(2))


if __name__ == "__main__":
    sys.exit(main(DivZero()))
