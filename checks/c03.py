"""C03: the text of a decimal is its exact expansion.  C04: parsing that text gives the same decimal back.

Decimals are written as digits: a case fixes the layout, how many integer digits are significant and the scale; each digit is symbolic."""
from checks.common import *

MINI = -(1 << 63)


def digits_dec(name, n, i, f, neg):
    """(decimal with i reported integer digits of which the last n are significant, integer digits, fractional digits), most significant first"""
    ds = [inp("%s.d%d" % (name, k), int(k == 0), 9) for k in range(n)]
    fs = [inp("%s.f%d" % (name, k), 0, 9) for k in range(f)]
    fu = ceil9(f)
    u = [0] * MAXU
    for k, d in enumerate(ds):
        p = n - 1 - k
        u[fu + p // 9] = l_add(u[fu + p // 9], l_scale(d, 10 ** (p % 9)))
    for k, d in enumerate(fs):
        u[fu - 1 - k // 9] = l_add(u[fu - 1 - k // 9], l_scale(d, 10 ** (8 - k % 9)))
    return D(u, i, f, neg), ds, fs


def expected(ds, fs, neg, frac):
    """the bytes of the text, as forms"""
    t = [45] if neg else []
    t += [l_add(d, 48) for d in ds] or [48]
    k = len(fs) if frac < 0 else frac
    if k:
        t.append(46)
        t += [l_add(d, 48) for d in fs[:k]] + [48] * (k - len(fs))
    return t


def c_text(v, frac):
    """the same for concrete content"""
    m, f = c_scaled(v)
    m, s = abs(m), v[2]
    k = s if frac < 0 else frac
    # cut off to k digits
    x = m * 10 ** k // B ** f
    t = str(x // 10 ** k)
    if k:
        t += "." + str(x % 10 ** k).zfill(k)
    return (("-" if v[3] else "") + t).encode()


def text_of(s, p, n):
    return [rd(s, p, k, 1, False) for k in range(n)]


class Print(Check):
    soft = True
    case_limit = (20, 200)
    outside = ["requested digit counts above 1000", "negative zeros and digits beyond the recorded digit counts (not produced by any operation, see C16)"]

    def __init__(self, pid):
        self.id = pid

    def bounds(self, tier):
        return ("every layout (integer + fractional units <= 9, leading zero units and digits included), both signs, %s numbers of significant integer digits and scales, "
                "all digits symbolic; %s; loops unrolled completely" % ("sampled" if tier == "quick" else "densely sampled",
                "requested digit counts: default, 0, around the scale and the unit edges, up to 1000" if self.id == "C03" else "decimals whose text has at most 65 digits"))

    def cases(self, tier, rng):
        out = []
        lay = [(a, b) for a in range(10) for b in range(9) if 0 < a + b <= MAXU]
        quick = tier == "quick"
        seen = set()
        for _ in range((4000 if self.id == "C03" else 2000) * (1 if quick else 12)):
            iu, fu = rng.choice(lay)
            n = rng.choice([rng.randint(max(0, 9 * iu - 8), 9 * iu), rng.randint(0, 9 * iu), 0])
            n = min(n, 9 * iu)
            i = rng.choice([n, 9 * iu, rng.randint(n, 9 * iu)])
            f = rng.randint(9 * fu - 8, 9 * fu) if fu else 0
            if iu == 0:
                n = i = 0
            neg = rng.randint(0, 1) if n + f else 0
            if i + f == 0:
                continue
            if self.id == "C04":
                if max(n, 1) + f > 65:
                    continue
                c = (n, i, f, neg, rng.choice([-1, -1, f]), rng.choice(["h_parse", "h_parse_str", "h_fromstr"]))
            else:
                fr = rng.choice([-1, -1, MINI, -9, 0, 1, f - 1, f, f, f + 1, 9 * fu - 1, 9 * fu, 9 * fu + 1, 9 * fu + rng.randint(0, 60), rng.randint(0, 90), rng.randint(0, f), 127, 128, 129, 256,
                                 rng.choice([255, 257, 300, 384, 999, 1000])])
                c = (n, i, f, neg, fr, rng.choice(["h_str", "h_append"]))
            if c not in seen:
                seen.add(c)
                out.append(c)
        return out

    def run_case(self, case, R):
        n, i, f, neg, frac, fn = case
        x, ds, fs = digits_dec("x", n, i, f, neg)
        ctx = Ctx()
        if neg:
            ctx.assume(x.nonzero())
        if self.id == "C04":
            return self.back(case, R, x, ds, fs, ctx)
        want = ([120, 121] if fn == "h_append" else []) + expected(ds, fs, neg, frac)

        def post(s, ptrs):
            if s.ret != len(want):
                return [("text of %d bytes instead of %d" % (s.ret, len(want)), 0)]
            t = text_of(s, ptrs[2], len(want))
            bad = f_and(*[f_eq(a, b) for a, b in zip(t, want)])
            return [("exact text", bad)]

        def oracle(a, ans):
            w = (b"xy" if fn == "h_append" else b"") + c_text(a[0], frac)
            if ans.bytes != w:
                return "gives %r instead of %r" % (ans.bytes, w)

        def compare(s, ptrs, env, ans):
            t = bytes(ev(b, env) for b in text_of(s, ptrs[2], s.ret))
            return None if t == ans.bytes else "encoded %r" % t
        drive(self, R, fn, [x, frac & (1 << 64) - 1, Out(4096)], post, oracle, ctx, 1, compare)

    def back(self, case, R, x, ds, fs, ctx):
        n, i, f, neg, frac, fn = case
        w = world()
        st = w.M.start("h_str", [], ctx)
        ask = Ask(self, R)
        args = [x, frac & (1 << 64) - 1, Out(4096)]
        res, ptrs = call(st, "h_str", args)

        def replay(env):
            v = x.conc(env)
            for nm, nat in (("checked build", w.dev), ("release build", w.rel)):
                a = Ans(nat.ask(cmdline("h_str", args, env)))
                if not a.ok:
                    return "h_str(%r): %s [%s]" % (v, a.text, nm), cmdline("h_str", args, env)
                line = "%s %s b:%s%s" % (fn, enc([0] * 9, 1, 0, 0), a.bytes.hex(), "" if fn == "h_fromstr" else " n:1")
                b = Ans(nat.ask(line))
                why = None
                if not b.ok or b.code:
                    why = "is not accepted: " + b.text[:60]
                else:
                    m, e = c_scaled(v)
                    m2, e2 = c_scaled(b.dec)
                    if m * B ** e2 != m2 * B ** e or b.dec[2] != v[2]:
                        why = "is parsed as %r" % (b.dec,)
                    else:
                        t = Ans(nat.ask("h_str %s n:%d" % (enc(*b.dec), frac & (1 << 64) - 1)))
                        if t.bytes != a.bytes:
                            why = "parses, but that prints as %r" % t.bytes
                if why:
                    return "%r prints as %r, which %s [%s]" % (v, a.bytes, why, nm), line
            return None
        for s in res:
            R.outcomes[s.status] = R.outcomes.get(s.status, 0) + 1
            if s.status != "ret":
                ask.reachable(s.ctx, 1, replay, "printing ends in " + str(s.why))
                continue
            L = s.ret
            t = text_of(s, ptrs[2], L)
            if any(b.__class__ is Lin and s.ctx.iv(b)[1] > 127 for b in t):
                raise X.EngineError("text may not be ASCII")
            y = cdec(([5] * 9, 80, 1, 0)) if fn != "h_fromstr" else cdec(RESET_RES)
            res2, p2 = call(s, fn, [y, Bytes(t)] + ([1] if fn != "h_fromstr" else []))
            R.paths += len(res2)
            for s2 in res2:
                R.outcomes[s2.status] = R.outcomes.get(s2.status, 0) + 1
                if s2.status != "ret" or s2.ret != 0:
                    ask.reachable(s2.ctx, 1, replay, "parsing back ends in %s" % (s2.why if s2.status != "ret" else "error %d" % s2.ret))
                    continue
                c = s2.ctx
                v = Raw(s2, p2[0])
                for what, g in [("same scale", f_eq(v.f, f))] + value_is(c, v, x.val(), x.fu) + wf(c, v):
                    ask.holds(c, g, replay, what)
                res3 = call_on(s2, "h_str", [p2[0], frac & (1 << 64) - 1, X.st_alloc(s2, 4096, zero=True)])
                R.paths += len(res3[0])
                for s3 in res3[0]:
                    if s3.status != "ret":
                        ask.reachable(s3.ctx, 1, replay, "printing again ends in " + str(s3.why))
                        continue
                    if s3.ret != L:
                        ask.holds(s3.ctx, 0, replay, "text of another length")
                        continue
                    t3 = text_of(s3, res3[1], L)
                    ask.holds(s3.ctx, f_and(*[f_eq(a, b) for a, b in zip(t, t3)]), replay, "same text again")
        # one run natively
        q, env = SOLVER.model(ctx.node)
        env = dict(env or {})
        for u in x.u:
            if u.__class__ is Lin:
                for a in u.t:
                    fill_env(a, env, ctx)
        e = replay(env)
        if e:
            raise RuntimeError("encoding disagrees with the native run: %s" % (e,))
        R.validated += 1


def call_on(s, fn, args):
    """further call on pointers of a state"""
    out = []
    for t in world().M.call(s, fn, args):
        out += split_code(t) if t.status == "ret" else [t]
    return out, args[2]


if __name__ == "__main__":
    sys.exit(main(Print(sys.argv.pop(1))))
