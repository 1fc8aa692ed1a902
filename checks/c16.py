"""C16: results are well-formed decimals (one inductive step)."""
from checks.twice import *
from checks.c09 import dig_operand, digit_shapes


def scaled_operand(rng, name, sh, neg):
    d, f = rng.choice(digit_shapes(sh)[0]), rng.choice(digit_shapes(sh)[1])
    return (name, sh, d, f, neg)


class Formed(Twice):
    id = "C16"

    def bounds(self, tier):
        return ("operands: any well-formed decimal of the sampled layouts with sampled digit counts in the outermost units (all unit values with those); one step of every "
                "operation; division and remainder by the concrete divisors of C10/C11's quotient-limited family, results judged unit by unit and digit by digit; parsing of sampled "
                "text shapes with symbolic digits; loops unrolled completely")

    def cases(self, tier, rng):
        quick = tier == "quick"
        out = []
        prs = [(a, b) for a in shapes() for b in shapes() if (not a[2] and not b[2]) or rng.random() < 0.1]
        for op in ("add", "sub"):
            for a, b in sampled(rng, prs, 3500 if quick else 9000):
                ca = scaled_operand(rng, "l", a, rng.randrange(2))
                cb = scaled_operand(rng, "r", b, rng.randrange(2))
                out.append((op, ca, cb))
        plain, padded = mul_cases(rng, "quick", 1, 400)
        out += [("mul", *c) for c in sampled(rng, plain + padded, 2600 if quick else 12000)]
        for op, pid in (("div", "C10"), ("rem", "C11")):
            cs = [c for c in DivRem(pid).cases("quick", rng) if c[0] not in ("values", "low", "top")]
            out += [(op, *c) for c in sampled(rng, cs, 700 if quick else 3000)]
        for _ in range(4000 if quick else 20000):
            sh = rng.choice(shapes())
            n = rng.randint(-9 * (sh[0] + sh[2]) - 2, min(72, 9 * (MAXU - sh[0] - sh[2])))
            out.append((rng.choice(["round", "round_to"]), scaled_operand(rng, "x", sh, rng.randrange(2) if sh[0] + sh[1] else 0), n))
        for _ in range(1500 if quick else 8000):
            out.append(("parse", text_shape(rng)))
        for t in ("i64", "u64"):
            cuts = [0, 1, B, B * B, 1 << 63] + ([] if t == "i64" else [1 << 64])
            for a, b in zip(cuts, cuts[1:]):
                out.append(("from_" + t, a, b - 1))
                if t == "i64":
                    out.append(("from_" + t, -b, -a - 1 if a else -1))
        out += binary_cases(rng, 0, 0, 0, n_zero=150 if quick else 1500)
        out += [("zero",), ("one",), ("set", 0), ("set", 1), ("set", 3)]
        rng.shuffle(out)
        return out

    def oracle(self, a, ans):
        if ans.code:
            return None
        e = c_wf(ans.dec)
        return "malformed result %r: %s" % (ans.dec, e) if e else None

    def run_case(self, case, R):
        op = case[0]
        ctx = Ctx()
        valid = 1
        fn, at = "h_" + op, 2
        if op in OPS and case[1].__class__ is str and case[1].startswith("zero"):
            l, r, incr, ctx, valid = binary_operands(case)
            args = [l, r, cdec(RESET_RES)] + ([incr] if op == "div" else [])
        elif op in ("add", "sub"):
            l, r = [dig_operand(c[0], c[1], c[2], c[3], c[4])[0] for c in case[1:3]]
            for x in (l, r):
                self.no_negzero_in(ctx, x)
            args = [l, r, cdec(RESET_RES)]
        elif op in ("mul", "div", "rem"):
            l, r, incr, ctx, valid = binary_operands(case)
            args = [l, r, cdec(RESET_RES)] + ([incr] if op == "div" else [])
        elif op in ("round", "round_to"):
            c, n = case[1:]
            x = dig_operand(c[0], c[1], c[2], c[3], c[4])[0]
            self.no_negzero_in(ctx, x)
            nu = ceil9(n) if n > 0 else 0
            if x.iu + nu == MAXU:
                ctx.assume(f_lt(x.mag(), B ** (x.iu + x.fu) - B ** (x.iu + x.fu) // 2))
            args, at = ([x, n], 0) if op == "round" else ([x, cdec(RESET_RES), n], 1)
        elif op == "parse":
            args, at = [cdec(RESET_RES), Bytes([inp("d%d" % k, 48, 57) if ch == "d" else ord(ch) for k, ch in enumerate(case[1])]), 1], 0
        elif op.startswith("from_"):
            args, at = [inp("v", case[1], case[2]) if case[1] < case[2] else case[1], Out(SIZE, False)], 1
        elif op == "set":
            args, at = [D([inp("x.u%d" % k, 0, B - 1) for k in range(MAXU)], 81, 0, 1 if case[1] < 2 else 0), case[1]], 0
        else:
            args, at = [Out(SIZE, False)], 0

        def post(s, ptrs):
            if s.ret:
                return []
            v = Raw(s, ptrs[at])
            return wf(s.ctx, v) + wf_digits(s.ctx, v)
        drive(self, R, fn, args, post, self.oracle, ctx, valid, cmp_result(at))

    def no_negzero_in(self, ctx, x):
        nz = x.nonzero()
        if nz.__class__ is int:
            x.neg = x.neg if nz else 0
        elif x.neg:
            ctx.assume(nz)


def text_shape(rng):
    n = rng.choice([rng.randint(1, 12), rng.randint(1, 66)])
    t = "d" * n
    if rng.random() < 0.3:
        t = "0" * rng.randint(1, n) + t
        t = t[:n + 2]
    if rng.random() < 0.7:
        k = rng.randint(0, len(t))
        t = t[:k] + "." + t[k:]
    t = rng.choice(["", "", "-", "+"]) + t
    if rng.random() < 0.5:
        t += rng.choice("eE") + rng.choice(["", "-", "+"]) + str(rng.randint(0, 35))
    return t


if __name__ == "__main__":
    sys.exit(main(Formed()))
