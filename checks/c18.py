"""C18: the operators are the checked operations with a panic for the error."""
from checks.twice import *


class Operators(Twice):
    id = "C18"

    def bounds(self, tier):
        return ("+ and -: sampled layout pairs (padding included) and signs, all unit values; *: sampled layout pairs, all unit values; / and %: concrete divisors, dividends "
                "with symbolic low units, and zero divisors; loops unrolled completely")

    def cases(self, tier, rng):
        return binary_cases(rng, 1500, 1200, 600) if tier == "quick" else binary_cases(rng, 9000, 6000, 3000, pad=1)

    def run_case(self, case, R):
        op = case[0]
        l, r, incr, ctx, valid = binary_operands(case)
        first = ("h_" + op, [l, r, cdec(RESET_RES)] + ([4] if op == "div" else []))
        second = ("h_op_" + op, [l, r, Out(SIZE, False)])

        def post(s, p1, t, p2):
            if s.ret != 0:
                return [("the operator panics when the operation reports an error", int(t.status != "ret"))]
            if t.status != "ret":
                return [("no panic when the operation succeeds", 0)]
            return same_content(Raw(s, p1[2]), Raw(t, p2[2]))

        def oracle(a, p, q):
            if not p.ok:
                return "the checked operation ends in " + p.text
            if (p.code != 0) != (not q.ok):
                return "code %d but the operator %s" % (p.code, "returns" if q.ok else "panics")
            if p.code == 0 and p.dec != q.dec:
                return "%r checked, %r by operator" % (p.dec, q.dec)
            return None
        self.two(R, ctx, valid, first, second, post, oracle, True, cmp_result(2))


if __name__ == "__main__":
    sys.exit(main(Operators()))
