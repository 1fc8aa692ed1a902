"""C19: operands may be swapped."""
from checks.twice import *


class Swap(Twice):
    id = "C19"

    def bounds(self, tier):
        return ("a+b / b+a and a-b / b-a: sampled layout pairs (padding included) and signs, all unit values; a*b / b*a: sampled layout pairs, all unit values (unit products "
                "opaque, equal under swapping); loops unrolled completely")

    def cases(self, tier, rng):
        return binary_cases(rng, 2200, 2600, 0, ("add", "sub", "mul")) if tier == "quick" else binary_cases(rng, 9000, 12000, 0, ("add", "sub", "mul"), pad=1)

    def run_case(self, case, R):
        op = case[0]
        l, r, incr, ctx, valid = binary_operands(case)

        def post(s, p1, t, p2):
            if s.ret != t.ret:
                return [("same outcome", 0)]
            if s.ret != 0:
                return []
            a, b = Raw(s, p1[2]), Raw(t, p2[2])
            out = [("same scale", f_eq(a.f, b.f))]
            out += [("same digits", f_eq(x, y)) for x, y in zip(a.u, b.u)]
            nz = f_or(*[f_le(1, x) for x in a.u])
            if op == "sub":
                out.append(("opposite signs", f_imp(nz, f_eq(l_add(a.neg, b.neg), 1))))
            else:
                out.append(("same sign", f_imp(nz, f_eq(a.neg, b.neg))))
            return out

        def oracle(a, p, q):
            if p.code != q.code:
                return "codes %d and %d" % (p.code, q.code)
            if p.code:
                return None
            (u, f), (v, g) = c_scaled(p.dec), c_scaled(q.dec)
            if op == "sub":
                v = -v
            if u * B ** g != v * B ** f or p.dec[2] != q.dec[2] or (u == 0 and p.dec[3] != q.dec[3]):
                return "%r and %r" % (p.dec, q.dec)
            return None
        res = cdec(RESET_RES)
        self.two(R, ctx, valid, ("h_" + op, [l, r, res]), ("h_" + op, [r, l, res]), post, oracle, False, cmp_result(2))


if __name__ == "__main__":
    sys.exit(main(Swap()))
