"""C05: comparison is numeric order."""
from checks.common import *

RELS = ["==", "!=", "<", "<=", ">", ">="]


class Cmp(Check):
    id = "C05"
    outside = ["negative zeros and digits beyond the recorded digit counts (not produced by any operation, see C16)"]

    def bounds(self, tier):
        return ("pairs of unit layouts with at most 9 units each (padding units included), all unit values, all digit counts, all sign "
                "pairs; loops unrolled completely")

    def cases(self, tier, rng):
        plain, padded = [], []
        for a in shapes():
            for b in shapes():
                for s in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    if (s[0] and a[0] + a[1] == 0) or (s[1] and b[0] + b[1] == 0):
                        continue
                    if s[0] != s[1] and (a[2] or b[2]):
                        continue
                    (padded if a[2] or b[2] else plain).append((*a, *b, *s, "cmp"))
        out = list(plain)
        for c in sampled(rng, plain, 150) + sampled(rng, padded, 50):
            out += [c[:8] + (k,) for k in ["pcmp", 0, 1, 2, 3, 4, 5]]
        out += sampled(rng, padded, 4000 if tier == "quick" else len(padded))
        if tier != "quick":
            for c in plain:
                out += [c[:8] + (k,) for k in ["pcmp", 0, 1, 2, 3, 4, 5]]
        rng.shuffle(out)
        return out

    def run_case(self, case, R):
        ln, rn, kind = case[6:]
        l, r = shaped("l", case[:3], ln), shaped("r", case[3:6], rn)
        ctx = Ctx()
        if ln:
            ctx.assume(l.nonzero())
        if rn:
            ctx.assume(r.nonzero())
        fu = max(l.fu, r.fu)
        T = l_sub(l.val(fu), r.val(fu))
        fn = "h_cmp" if kind == "cmp" else "h_pcmp" if kind == "pcmp" else "h_rel"
        args = [l, r] + ([kind] if fn == "h_rel" else [])

        def truth(k, t0, t1):
            return [f_and(f_le(t0, 0), f_le(t1, 0))]

        def post(s, ptrs):
            k = s.ret
            lt, eq, gt = f_lt(T, 0), f_eq(T, 0), f_lt(0, T)
            if fn != "h_rel":
                k = X.sgn(k & 0xffffffff, 32)
                return [("order", {-1: lt, 0: eq, 1: gt}.get(k, 0))]
            want = [eq, f_not(eq), lt, f_or(lt, eq), gt, f_or(gt, eq)][kind]
            return [("relation", want if k & 1 else f_not(want))]

        def oracle(a, ans):
            x, fx = c_scaled(a[0])
            y, fy = c_scaled(a[1])
            x, y = x * B ** fy, y * B ** fx
            want = (x > y) - (x < y)
            if fn == "h_rel":
                want = int([x == y, x != y, x < y, x <= y, x > y, x >= y][kind])
            if ans.code != want:
                return "gives %d, numeric order says %d" % (ans.code, want)

        def compare(s, ptrs, env, ans):
            k = X.sgn(s.ret & 0xffffffff, 32) if fn != "h_rel" else s.ret & 1
            return None if ans.code == k else "encoded %r" % k
        drive(self, R, fn, args, post, oracle, ctx, f_and(l.valid(), r.valid()), compare)


if __name__ == "__main__":
    sys.exit(main(Cmp()))
