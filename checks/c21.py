"""C21: constructors, predicates, digit counts, sign setters and clones."""
from checks.common import *

SETS = ["set_zero", "set_one", "set_neg", "set_pos"]


class Basics(Check):
    id = "C21"
    outside = []

    def bounds(self, tier):
        return ("every layout of integer and fractional units, either sign, any unit values and digit counts in it (predicates, digit counts, sign setters, clone); "
                "set_zero and set_one (and clone) from any 32-bit units and any digit counts 0..127; loops unrolled completely, no other bound")

    def cases(self, tier, rng):
        out = [("zero",), ("one",)]
        for i, f in [(i, f) for i in range(10) for f in range(10) if i + f <= MAXU]:
            for neg in (0, 1):
                if neg and not i + f:
                    continue
                out += [(op, i, f, neg) for op in ("query", "clone", "set_neg", "set_pos")]
        out += [(op, -1, -1, neg) for op in ("set_zero", "set_one", "clone") for neg in (0, 1)]
        return out

    def operand(self, i, f, neg, ctx):
        if i < 0:
            return D([inp("x.u%d" % k, -2 ** 31, 2 ** 31 - 1) for k in range(MAXU)], inp("x.i", 0, 127), inp("x.f", 0, 127), neg, 9, 0)
        x = sdec("x", i, f, neg) if i + f else cdec(([0] * 9, 0, 0, 0))
        if neg:
            ctx.assume(x.nonzero())
        return x

    def run_case(self, case, R):
        op = case[0]
        ctx = Ctx()
        if op in ("zero", "one"):
            v = int(op == "one")
            drive(self, R, "h_" + op, [Out(SIZE, False)], lambda s, p: self.is_number(s, p[0], v),
                  lambda a, ans: self.number_oracle(ans.dec, v), compare=cmp_result(0))
            return
        i, f, neg = case[1:4]
        x = self.operand(i, f, neg, ctx)
        valid = x.valid() if i >= 0 else 1
        if op in ("set_zero", "set_one"):
            v = int(op == "set_one")
            want = Ans(world().dev.ask("h_one" if v else "h_zero")).dec
            drive(self, R, "h_set", [x, v], lambda s, p: self.is_number(s, p[0], v) + [("integer digits as of a new one", f_eq(Raw(s, p[0]).i, want[1]))],
                  lambda a, ans: self.number_oracle(ans.dec, v) or (None if ans.dec == want else "gives %r" % (ans.dec,)), ctx, valid, cmp_result(0))
        elif op == "clone":
            drive(self, R, "h_clone", [x, Out(SIZE, False)], lambda s, p: self.same(s, p[1], x, x.neg) + self.same(s, p[0], x, x.neg),
                  lambda a, ans: None if ans.dec == dec(ans.extra) == self.stored(a[0]) else "clone is %r" % (ans.dec,), ctx, valid, cmp_result(1))
        elif op == "query":
            self.query(R, x, ctx, valid)
        else:
            n = int(op == "set_neg")
            zero = f_and(*[f_eq(u, 0) for u in x.u[:x.iu + x.fu]])
            want = l_ite(zero, 0, n) if n else 0

            def oracle(a, ans):
                u, d, g, _ = a[0]
                w = (u, d, g, n if any(u) else 0)
                return None if ans.dec == w else "%s gives %r" % (op, ans.dec)
            drive(self, R, "h_set", [x, 2 if n else 3], lambda s, p: self.same(s, p[0], x, want), oracle, ctx, valid, cmp_result(0))

    def stored(self, v):
        return v[0], v[1], v[2] & 255, v[3]

    def is_number(self, s, p, v):
        r = Raw(s, p)
        return [("unit %d" % k, f_eq(u, v if k == 0 else 0)) for k, u in enumerate(r.u)] + [
            ("no fractional digits", f_eq(r.f, 0)), ("not negative", f_eq(r.neg, 0)), ("integer digits in range", f_and(f_le(v, r.i), f_le(r.i, 81)))]

    def number_oracle(self, d, v):
        ok = c_wf(d) is None and c_scaled(d) == (v, 0) and d[2] == 0
        return None if ok else "gives %r" % (d,)

    def same(self, s, p, x, neg):
        r = Raw(s, p)
        return [("unit %d" % k, f_eq(u, y)) for k, (u, y) in enumerate(zip(r.u, x.u))] + [
            ("fractional digits", f_eq(r.f, x.f)), ("integer digits", f_eq(r.i, x.i)), ("sign", f_eq(r.neg, neg))]

    def query(self, R, x, ctx, valid):
        zero = f_and(*[f_eq(u, 0) for u in x.u])

        def get(s, p, k):
            return rd(s, p[1], 8 * k, 8, True)

        def post(s, p):
            z, n, i, f, iu, fu = [get(s, p, k) for k in range(6)]
            out = [("is_zero is zero or one", f_and(f_le(0, z), f_le(z, 1))),
                   ("is_zero exactly for zero", f_and(f_imp(f_eq(z, 1), zero), f_imp(zero, f_eq(z, 1)))),
                   ("is_neg exactly for negative decimals", f_eq(n, x.neg)), ("integer digits", f_eq(i, x.i)), ("fractional digits", f_eq(f, x.f)),
                   ("integer digit groups", f_eq(iu, x.iu)), ("fractional digit groups", f_eq(fu, x.fu))]
            return out + self.same(s, p[0], x, x.neg)

        def words(ans):
            return [int.from_bytes(ans.bytes[8 * k:8 * k + 8], "little", signed=True) for k in range(6)]

        def oracle(a, ans):
            u, i, f, n = a[0]
            want = [int(not any(u)), n, i, f, ceil9(i), ceil9(f)]
            got = words(ans)
            return None if got == want else "is_zero, is_neg, intg, frac, groups: %r" % (got,)

        def compare(s, p, env, ans):
            mine = [ev(get(s, p, k), env) for k in range(6)]
            return None if mine == words(ans) else "encoded %r" % (mine,)
        drive(self, R, "h_query", [x, Out(48)], post, oracle, ctx, valid, compare)


if __name__ == "__main__":
    sys.exit(main(Basics()))
