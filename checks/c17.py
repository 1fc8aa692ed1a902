"""C17: the old content of the result plays no part, operands are left alone."""
from checks.twice import *

NUMERALS = ["0", "-0", "00.0", "7", "-12.5", "123456789.987654321", "1e3", "-1.5E-7", "999999999999999999999999999999", "0.000000000000000000000000000001",
            ".5", "5.", "+1", "", "-", "1.2.3", "1e", "1e99", "abc", "1234567890123456789012345678901234567890.123456789e-20", "9" * 65, "9" * 66, "0" * 70,
            "1e-30", "1e64", "1e65", " 1", "1 ", "--1", "1e+5", "12345678901234567890e-25"]


def dirty(name, neg):
    return D([inp("%s.u%d" % (name, k), 0, B - 1) for k in range(MAXU)], inp(name + ".intg", 0, 127), inp(name + ".frac", 0, 127), neg, 9, 0)


class Fresh(Twice):
    id = "C17"

    def bounds(self, tier):
        return ("result decimal before the call: any nine units below 10^9, any digit counts 0..127, both signs; operands as in C18 with sampled layouts, all unit values; "
                "rounding into: sampled layouts and positions; parsing with reset: digit strings of sampled shapes with symbolic digits and literal malformed ones")

    def cases(self, tier, rng):
        quick = tier == "quick"
        out = binary_cases(rng, 1600 if quick else 6000, 1400 if quick else 5000, 500 if quick else 2000, n_zero=150 if quick else 1500)
        shs = shapes()
        for _ in range(2400 if quick else 8000):
            sh = rng.choice(shs)
            out.append(("round_to", *sh, rng.randint(-9 * (sh[0] + sh[2]) - 2, min(72, 9 * (MAXU - sh[0] - sh[2]))), rng.randrange(2) if sh[0] + sh[1] else 0))
        for t in NUMERALS:
            out.append(("parse", t))
        for _ in range(500 if quick else 1500):
            n = rng.randint(1, 66)
            t = "".join(rng.choice("d") for _ in range(n))
            if rng.random() < 0.7:
                k = rng.randint(0, n)
                t = t[:k] + "." + t[k:]
            t = rng.choice(["", "", "-", "+"]) + t
            if rng.random() < 0.4:
                t += rng.choice("eE") + rng.choice(["", "-", "+"]) + str(rng.randint(0, 35))
            out.append(("parse", t))
        rng.shuffle(out)
        return out

    def run_case(self, case, R):
        op = case[0]
        neg = R.name.__len__() % 2
        old, new = dirty("old", neg), cdec(RESET_RES)
        if op == "parse":
            b = []
            ctx = Ctx()
            for k, ch in enumerate(case[1]):
                b.append(inp("d%d" % k, 48, 57) if ch == "d" else ord(ch))
            args = lambda res: [res, Bytes(b), 1]
            ins, at, fn, valid = [], 0, "h_parse", 1
        elif op == "round_to":
            x = shaped("x", case[1:4], case[5])
            ctx = Ctx()
            if x.neg:
                ctx.assume(x.nonzero())
            n = case[4]
            nu = ceil9(n) if n > 0 else 0
            if x.iu + nu == MAXU:
                ctx.assume(f_lt(x.mag(), B ** (x.iu + x.fu) - B ** (x.iu + x.fu) // 2))
            args = lambda res: [x, res, n]
            ins, at, fn, valid = [(0, x)], 1, "h_round_to", x.valid()
        else:
            l, r, incr, ctx, valid = binary_operands(case)
            args = lambda res: [l, r, res] + ([incr] if op == "div" else [])
            ins, at, fn = [(0, l), (1, r)], 2, "h_" + op

        def post(s, p1, t, p2):
            if s.ret != t.ret:
                return [("same outcome", 0)]
            out = []
            for k, x in ins:
                v = Raw(s, p1[k])
                out += [("operand %d untouched" % k, f_eq(a, b)) for a, b in zip(v.u + [v.f, v.i, v.neg], x.u + [x.f, x.i, x.neg])]
            if not s.ret or op == "parse":
                out += same_content(Raw(s, p1[at]), Raw(t, p2[at]))
            return out

        def oracle(a, p, q):
            if p.code != q.code:
                return "code %d over old content, %d over zero" % (p.code, q.code)
            if (not p.code or op == "parse") and p.dec != q.dec:
                return "%r over old content, %r over zero" % (p.dec, q.dec)
            for k, x in ins:
                if (p.l if k == 0 else p.r) != a[k]:
                    return "operand %d becomes %r" % (k, p.l if k == 0 else p.r)
            return None
        if op == "round_to":
            def oracle(a, p, q):
                if p.dec != q.dec:
                    return "%r over old content, %r over zero" % (p.dec, q.dec)
                return "source becomes %r" % (dec(p.extra),) if dec(p.extra) != a[0] else None
        self.two(R, ctx, valid, (fn, args(old)), (fn, args(new)), post, oracle, False, cmp_result(at))


if __name__ == "__main__":
    sys.exit(main(Fresh()))
