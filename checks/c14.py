"""C14 / C15: conversions from and to i64 / u64."""
from checks.common import *

RANGE = {"C14": (-(1 << 63), (1 << 63) - 1), "C15": (0, (1 << 64) - 1)}


def as_signed(x, signed):
    return X.sgn(x & (1 << 64) - 1, 64) if signed else x & (1 << 64) - 1


class Conv(Check):
    outside = ["negative zeros and digits beyond the recorded digit counts (not produced by any operation, see C16)"]

    def __init__(self, pid):
        self.id = pid
        self.signed = pid == "C14"
        self.lo, self.hi = RANGE[pid]
        self.t = "i64" if self.signed else "u64"

    def bounds(self, tier):
        return ("from: every %s (split at powers of 10^9, sign and the extremes); to: every layout (integer + fractional units <= 9, padding "
                "included), both signs, all unit values and digit counts; loops unrolled completely" % self.t)

    def cases(self, tier, rng):
        out = []
        cuts = sorted({self.lo, self.lo + 1, 0, 1, self.hi, self.hi + 1, B, B * B} | ({-B + 1, -B * B + 1} if self.signed else set()))
        for a, b in zip(cuts, cuts[1:]):
            out.append(("from", a, b - 1))
        for sh in shapes():
            for neg in (0, 1):
                if neg and sh[0] + sh[1] == 0:
                    continue
                out.append(("as", *sh, neg))
        return out

    def run_case(self, case, R):
        if case[0] == "from":
            self.from_int(case, R)
        else:
            self.to_int(case, R)

    def from_int(self, case, R):
        v = inp("v", case[1], case[2]) if case[1] < case[2] else case[1]
        fn = "h_from_" + self.t

        def post(s, ptrs):
            c = s.ctx
            r = Raw(s, ptrs[1])
            out = value_is(c, r, v, 0) + wf(c, r) + wf_digits(c, r)
            out.append(("integers have no fractional digits", f_eq(r.f, 0)))
            # and back
            back, p2 = self.back(s, ptrs[1])
            for t in back:
                if t.status != "ret" or t.ret != 0:
                    out.append(("converts back", ("at", t, 0)))
                    continue
                o = rd(t, p2, 0, 8, self.signed)
                out.append(("converts back to the same integer", ("at", t, f_eq(o, v))))
            return out
        self.go(R, fn, [v, Out(SIZE, False)], post, lambda a, ans: self.from_oracle(a, ans))

    def back(self, s, p):
        p2 = X.st_alloc(s, 8)
        w = world()
        out = []
        for t in w.M.call(s, "h_as_" + self.t, [p, p2]):
            out += split_code(t) if t.status == "ret" else [t]
        return out, p2

    def go(self, R, fn, args, post, oracle):
        w = world()
        ctx = Ctx()
        st = w.M.start(fn, [], ctx)
        res, ptrs = call(st, fn, args)
        R.paths += len(res)
        ask = Ask(self, R)

        def replay(env):
            line = cmdline(fn, args, env)
            a = [conc_arg(x, env) for x in args]
            for nm, ans in ask_native(line):
                e = ("%s instead of a result" % ans.text) if not ans.ok else oracle(a, ans)
                if e:
                    return "%s(%r): %s [%s]" % (fn, a[0], e, nm), line
            return None
        for s in res:
            R.outcomes[s.status] = R.outcomes.get(s.status, 0) + 1
            if s.status != "ret":
                ask.reachable(s.ctx, 1, replay, "path ends in " + str(s.why))
                continue
            c0 = s.ctx.copy()
            q, env = SOLVER.model(c0.node)
            if env is not None:
                for x in args:
                    if x.__class__ is Lin:
                        for t in x.t:
                            fill_env(t, env, c0)
                ans = Ans(w.dev.ask(cmdline(fn, args, env)))
                mine = Raw(s, ptrs[1]).conc(env)
                if not ans.ok or mine != ans.dec:
                    raise RuntimeError("encoding disagrees with the native run: %s -> %s, encoded %r" % (cmdline(fn, args, env), ans.text, mine))
                R.validated += 1
            for what, f in post(s, ptrs):
                if f.__class__ is tuple:
                    R.paths += 1
                    ask.holds(f[1].ctx, f[2], replay, what)
                else:
                    ask.holds(c0, f, replay, what)

    def from_oracle(self, a, ans):
        v = ans.dec
        e = c_wf(v)
        if e:
            return "malformed result %r: %s" % (v, e)
        m, f = c_scaled(v)
        if m != a[0] * B ** f or v[2]:
            return "gives %r" % (v,)
        w = world()
        for n in (w.dev, w.rel):
            b = Ans(n.ask("h_as_%s %s" % (self.t, enc(*v))))
            if not b.ok or b.code != 0 or int.from_bytes(b.bytes, "little", signed=self.signed) != a[0]:
                return "converts back to %s" % b.text
        return None

    def to_int(self, case, R):
        sh, neg = case[1:4], case[4]
        x = shaped("x", sh, neg)
        ctx = Ctx()
        if neg:
            ctx.assume(x.nonzero())
        fu = x.fu
        S = B ** fu
        M = x.mag()
        T = x.val()
        inside = f_and(f_le(self.lo * S, T), f_le(T, self.hi * S))

        def post(s, ptrs):
            if s.ret == 4:
                return [("only values out of range are refused", f_not(inside))]
            if s.ret != 0:
                return [("error code %r" % s.ret, 0)]
            o = rd(s, ptrs[1], 0, 8, self.signed)
            if neg:
                o = l_scale(o, -1)
            near = f_and(f_le(l_scale(o, 2 * S), l_add(l_scale(M, 2), S)), f_lt(l_sub(l_scale(M, 2), S), l_scale(o, 2 * S)))
            return [("values out of range are refused", inside), ("rounded half away from zero", near)]

        def oracle(a, ans):
            m, f = c_scaled(a[0])
            q = B ** f
            ok = self.lo * q <= m <= self.hi * q
            if ans.code not in (0, 4):
                return "unexpected error code %d" % ans.code
            if (ans.code == 0) != ok:
                return "code %d" % ans.code
            if ok:
                got = int.from_bytes(ans.bytes, "little", signed=self.signed)
                want = (2 * abs(m) + q) // (2 * q)
                want = -want if m < 0 else want
                if got != want:
                    return "gives %d instead of %d" % (got, want)
            return None

        def compare(s, ptrs, env, ans):
            if s.ret != ans.code:
                return "code %r" % s.ret
            if s.ret == 0:
                o = ev(rd(s, ptrs[1], 0, 8, self.signed), env)
                if o != int.from_bytes(ans.bytes, "little", signed=self.signed):
                    return "encoded %d" % o
            return None
        drive(self, R, "h_as_" + self.t, [x, Out(8)], post, oracle, ctx, x.valid(), compare)


if __name__ == "__main__":
    sys.exit(main(Conv(sys.argv.pop(1))))
