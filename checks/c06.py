"""C06: equal decimals hash equally."""
from checks.common import *

BUF = 128 * 8


class HashEq(Check):
    id = "C06"
    outside = ["negative zeros and digits beyond the recorded digit counts (not produced by any operation, see C16)"]

    def bounds(self, tier):
        return ("pairs of layouts (integer + fractional units <= 9, padding included) with the same number of significant integer units "
                "(otherwise the values differ), both signs, all unit values and digit counts; loops unrolled completely; the compared data "
                "is the sequence of calls the decimal makes on the Hasher")

    def cases(self, tier, rng):
        out = []
        sh = shapes()
        for k, a in enumerate(sh):
            for b in sh[k:]:
                if a[0] != b[0]:
                    continue
                for neg in (0, 1):
                    if neg and not (a[0] + a[1] and b[0] + b[1]):
                        continue
                    out.append((*a, *b, neg))
        # one operand of a given sign, the other zero of any layout: -0 does not exist, so the signs differ only for unequal values
        rng.shuffle(out)
        return out

    def run_case(self, case, R):
        neg = case[6]
        l, r = shaped("l", case[:3], neg), shaped("r", case[3:6], neg)
        ctx = Ctx()
        w = world()
        fu = max(l.fu, r.fu)
        if neg:
            ctx.assume(l.nonzero())
            ctx.assume(r.nonzero())
        # equal values, unit by unit
        lo, hi = -fu, max(l.iu, r.iu)
        for k in range(lo, hi):
            a = l.u[k + l.fu] if 0 <= k + l.fu < l.iu + l.fu else 0
            b = r.u[k + r.fu] if 0 <= k + r.fu < r.iu + r.fu else 0
            try:
                ctx.assume(f_eq(a, b))
            except Dead:
                return
        ask = Ask(self, R)
        valid = f_and(l.valid(), r.valid())

        def replay(env):
            a, b = l.conc(env), r.conc(env)
            l1, l2 = cmdline("h_hash", [l], env), cmdline("h_hash", [r], env)
            for (nm, p), (_, q) in zip(ask_native(l1), ask_native(l2)):
                if not p.ok or not q.ok or p.bytes != q.bytes:
                    return "hash(%r) and hash(%r) differ: %s / %s [%s]" % (a, b, p.text, q.text, nm), l1 + " ; " + l2
            return None
        st = w.M.start("h_hash", [], ctx)
        r1, p1 = call(st, "h_hash", [l, Out(BUF)])
        done = False
        for s in r1:
            if s.status != "ret":
                ask.reachable(s.ctx, valid, replay, "path ends in " + str(s.why))
                continue
            r2, p2 = call(s, "h_hash", [r, Out(BUF)])
            n1 = s.ret
            R.paths += len(r2)
            for t in r2:
                R.outcomes[t.status] = R.outcomes.get(t.status, 0) + 1
                if t.status != "ret":
                    ask.reachable(t.ctx, valid, replay, "path ends in " + str(t.why))
                    continue
                n2 = t.ret
                if n1 != n2:
                    ask.reachable(t.ctx, valid, replay, "same number of calls on the Hasher")
                    continue
                ask.holds(t.ctx, f_and(*[f_eq(rd(t, p1[1], 8 * k, 8, False), rd(t, p2[1], 8 * k, 8, False)) for k in range(n1)]),
                          replay, "same data fed to the Hasher", valid)
                if not done:
                    done = self.sample(R, l, t, p1, n1)

    def sample(self, R, l, t, p1, n1):
        q, env = SOLVER.model(t.ctx.node)
        if env is None:
            return False
        for x in l.u + [l.i, l.f]:
            if x.__class__ is Lin:
                for a in x.t:
                    fill_env(a, env, t.ctx)
        line = cmdline("h_hash", [l], env)
        ans = Ans(world().dev.ask(line))
        try:
            mine = b"".join(ev(rd(t, p1[1], 8 * k, 8, False), env).to_bytes(8, "little") for k in range(n1))
        except KeyError:
            return False
        if not ans.ok or ans.bytes != mine:
            raise RuntimeError("encoding disagrees with the native run: %s -> %s, encoded %s" % (line, ans.text, mine.hex()))
        R.validated += 1
        R.sample = "%s: e.g. %s -> %s" % (R.name, line, ans.text)
        return True


if __name__ == "__main__":
    sys.exit(main(HashEq()))
