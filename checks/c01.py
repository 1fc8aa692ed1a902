"""C01: parsed numerals have exactly the value written.  C02: exactly the well-formed numerals in range are accepted.

A text is a word over classes: d digit, . point, + -, e E exponent marks, x any other byte, ? any byte. Bytes of d, x, ? are symbolic."""
import re
from checks.common import *

NUM = re.compile(r"([+-]?)(d*)(\.?)(d*)(?:([eE])([+-]?)(d+))?$")
CLASSES = "d.+-eEx"
SPECIAL = [43, 45, 46, 69, 101]


def letter(name, ch, ctx):
    """byte of that class"""
    if ch in "dD":
        return inp(name, 48 + (ch == "D"), 57)
    if ch in ".+-eE" or ch in "0123456789":
        return ord(ch)
    b = inp(name, 0, 255)
    if ch == "x":
        ctx.assume(of_class(b, "x"))
    return b


def of_class(b, ch):
    if b.__class__ is int:
        return int((48 <= b <= 57) if ch == "d" else (b == ord(ch)) if ch != "x" else not (48 <= b <= 57 or b in SPECIAL))
    if ch == "d":
        return f_and(f_le(48, b), f_le(b, 57))
    if ch == "x":
        return f_and(f_not(of_class(b, "d")), *[f_not(f_eq(b, v)) for v in SPECIAL])
    return f_eq(b, ord(ch))


class Num:
    """the parts of a numeral of known classes, its bytes being forms"""

    def __init__(self, word, b):
        m = NUM.match(re.sub("[0-9D]", "d", word))
        self.ok = bool(m) and len(m.group(2)) + len(m.group(4)) > 0
        if not self.ok:
            return
        self.neg = m.group(1) == "-"
        self.digits = [l_sub(b[k], 48) for k in list(range(*m.span(2))) + list(range(*m.span(4)))]
        self.fd = len(m.group(4))
        self.exp = 0
        self.elim = 0
        self.eneg = False
        self.exps = []
        if m.group(5):
            self.eneg = m.group(6) == "-"
            e = 0
            self.exps = [l_sub(b[k], 48) for k in range(*m.span(7))]
            for x in self.exps:
                e = l_add(l_scale(e, 10), x)
            self.exp = e

    def accepted(self):
        if not self.ok:
            return 0
        d, e, fd = len(self.digits), self.exp, self.fd
        lim = f_le(e, 30 if self.eneg else 65)
        s = l_scale(e, -1) if self.eneg else e
        # digits needed
        low = f_and(f_le(s, fd), int(d <= 65), f_le(l_sub(fd, s), 65))
        high = f_and(f_lt(fd, s), f_le(l_add(d - fd, s), 65))
        return f_and(lim, f_or(low, high))


def accepted(word, b):
    k = word.find("?")
    if k < 0:
        return Num(word, b).accepted()
    return f_or(*[f_and(of_class(b[k], c), accepted(word[:k] + c + word[k + 1:], b)) for c in CLASSES])


def c_number(t):
    """(value numerator, scale) of an accepted text, else None"""
    m = re.match(rb"([+-]?)([0-9]*)(\.?)([0-9]*)(?:[eE]([+-]?[0-9]+))?$", t, re.S)
    if not m or t.endswith(b"\n") or len(m.group(2)) + len(m.group(4)) == 0:
        return None
    e = int(m.group(5) or b"0")
    if e > 65 or e < -30:
        return None
    s = len(m.group(4)) - e
    d = len(m.group(2)) + len(m.group(4))
    if (max(d, s) if s > 0 else d - s) > 65:
        return None
    v = int(m.group(2) + m.group(4))
    if s < 0:
        v, s = v * 10 ** -s, 0
    return (-v if m.group(1) == b"-" else v), s


def live(w):
    """can w be continued to (or is it) an accepted text, as far as its shape goes"""
    return re.match(r"[+-]?d*\.?d*$", w) or re.match(r"[+-]?(d+\.?d*|\.d+)[eE][+-]?d*$", w)


def words(n):
    """all byte strings of length n, by class; past the first hopeless byte anything goes"""
    out = []

    def go(w):
        if len(w) == n:
            out.append(w)
            return
        for c in CLASSES:
            if live(w + c):
                go(w + c)
            else:
                out.append(w + c + "?" * (n - len(w) - 1))
    go("")
    return out


def split_exp(w):
    """the cases of a word's exponent: each value up to 99 on its own (written with digits), and all larger ones together ("D": some of those digits is not 0)"""
    m = re.match(r"([^eE]*[eE][+-]?0*)(d+)$", w)
    if not m or not NUM.match(re.sub("[0-9]", "d", w)):
        return [w]
    k = len(m.group(2))
    out = [m.group(1) + "0" * max(k - 2, 0) + "%0*d" % (min(k, 2), v) for v in range(10 if k == 1 else 100)]
    for j in range(k - 2):
        # the first digit that is not 0
        out.append(m.group(1) + "0" * j + "D" + "d" * (k - j - 1))
    return out


class Parse(Check):
    case_limit = (20, 200)
    FNS = ("h_parse", "h_parse", "h_parse_str", "h_fromstr")

    def __init__(self, pid):
        self.id = pid

    def bounds(self, tier):
        if self.id == "C01":
            return ("digits symbolic; every number of integer and fractional digits (up to 65 together, with the point before, between or after), signs, leading zeros and "
                    "exponents -30..65 %s; loops unrolled completely" % ("sampled for each" if tier == "quick" else "sampled more densely"))
        return ("all byte strings of length <= %d (case-split into byte classes up to the first byte that makes the text hopeless, everything after that free); longer texts "
                "(to 300 bytes): digit runs around 65, 127/128, 255/256 digits with symbolic digits, points, signs, exponents of 1..300 symbolic digits, and up to two free "
                "bytes anywhere" % (6 if tier == "quick" else 7))

    outside = ["free bytes at more than two places of a text longer than the exhaustive length"]

    def cases(self, tier, rng):
        quick = tier == "quick"
        out = []
        if self.id == "C01":
            for n in range(1, 66):
                for p in range(-1, n + 1):
                    t = "d" * n
                    if p >= 0:
                        t = t[:p] + "." + t[p:]
                    out.append((rng.choice(["", "-", "+"]) + t, rng.choice(self.FNS)))
            for _ in range(9000 if quick else 30000):
                n = rng.choice([rng.randint(1, 12), rng.randint(1, 65), rng.randint(20, 45)])
                fd = rng.randint(0, n)
                e = rng.randint(-30, 65)
                if not self.fits(n, fd, e):
                    e = rng.randint(max(-30, fd - 65), min(65, 65 - n + fd))
                z = rng.choice([0, 0, 0, rng.randint(1, n)])
                t = "0" * z + "d" * (n - z)
                if fd or rng.random() < 0.3:
                    t = t[:n - fd] + "." + t[n - fd:]
                es = str(abs(e))
                es = rng.choice(["", "", "0", "000"]) + es
                out.append((rng.choice(["", "-", "+"]) + t + rng.choice("eE") + ("-" if e < 0 else rng.choice(["", "+"])) + es, rng.choice(self.FNS)))
            for n in range(1, 66):
                t = "0" * n
                p = rng.randint(0, n)
                out.append((rng.choice(["", "-"]) + rng.choice([t, t[:p] + "." + t[p:]]), rng.choice(self.FNS)))
            rng.shuffle(out)
            return out
        for n in range(0, 7 if quick else 8):
            for w in words(n):
                for v in split_exp(w):
                    out.append((v, rng.choice(self.FNS)))
        for _ in range(3500 if quick else 12000):
            v = self.long(rng)
            out.append((rng.choice(split_exp(v)), rng.choice(self.FNS)))
        rng.shuffle(out)
        return out

    def fits(self, n, fd, e):
        s = fd - e
        return (max(n, s) if s > 0 else n - s) <= 65

    def long(self, rng):
        n = rng.choice([rng.randint(1, 30), rng.randint(30, 64), 63, 64, 65, 66, 67, rng.randint(60, 70), 126, 127, 128, 129, 200, 255, 256, 257, 300])
        z = rng.choice([0, 0, 0, rng.randint(0, n)])
        t = "0" * z + "d" * (n - z)
        if rng.random() < 0.5:
            p = rng.choice([0, n, rng.randint(0, n)])
            t = t[:p] + "." + t[p:]
        t = rng.choice(["", "", "-", "+"]) + t
        if rng.random() < 0.6:
            k = rng.choice([1, 2, 2, 3, 4, 5])
            if rng.random() < 0.1:
                k = rng.choice([9, 19, 20, 21, 40, 300])
            z = rng.choice([0, 0, k - 1, k - 2, rng.randint(0, k)])
            t += rng.choice("eE") + rng.choice(["", "-", "+"]) + "0" * max(z, 0) + "d" * (k - max(z, 0))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            # a byte out of place
            k = rng.choice([rng.randrange(len(t)), len(t) - 1, 0])
            t = t[:k] + rng.choice(CLASSES + "xx") + t[k + (rng.random() < 0.7):]
        return t

    def oracle(self, a, ans):
        t = a[1]
        want = c_number(t)
        if ans.code not in (0, 1):
            return "unexpected error code %d" % ans.code
        if want is None:
            if ans.code == 0:
                return "accepted %r as %r" % (t, ans.dec)
            if ans.dec != RESET_RES and ans.dec is not None and (any(ans.dec[0]) or ans.dec[3] or ans.dec[2]):
                return "target left at %r" % (ans.dec,)
            return None
        if ans.code:
            return "refused %r" % t if self.id == "C02" else None
        e = c_wf(ans.dec)
        if e:
            return "malformed result %r: %s" % (ans.dec, e)
        m, f = c_scaled(ans.dec)
        v, s = want
        if m * 10 ** s != v * B ** f or ans.dec[2] != s:
            return "%r parsed as %r" % (t, ans.dec)
        return None

    def run_case(self, case, R):
        word, fn = case
        ctx = Ctx()
        b = [letter("b%d" % k, ch, ctx) for k, ch in enumerate(word)]
        args = [cdec(([5] * 9, 80, 1, 0)) if fn != "h_fromstr" else cdec(RESET_RES), Bytes(b)] + ([1] if fn != "h_fromstr" else [])
        acc = accepted(word, b)
        if fn != "h_parse" and "?" in word or "x" in word and fn != "h_parse":
            # str arguments: bytes below 128 only
            for x in b:
                if x.__class__ is Lin:
                    ctx.assume(f_lt(x, 128))
        num = Num(word, b) if self.id == "C01" else None

        def post(s, ptrs):
            c = s.ctx
            if s.ret == 1:
                if self.id == "C01":
                    return []
                v = Raw(s, ptrs[0])
                return [("only texts that are no numeral in range are refused", f_not(acc))] + [("a target that was to be reset stays zero", f_eq(x, 0)) for x in v.u + [v.f, v.neg]]
            if s.ret != 0:
                return [("error code %r" % s.ret, 0)]
            if self.id == "C02":
                return [("only numerals in range are accepted", acc)]
            v = Raw(s, ptrs[0])
            sc = max(num.fd - self.exp_of(num), 0)
            T = lsum(*[l_scale(d, 10 ** (len(num.digits) - 1 - k)) for k, d in enumerate(num.digits)])
            e = num.fd - self.exp_of(num)
            if e < 0:
                T = l_scale(T, 10 ** -e)
            fu = ceil9(sc)
            T = l_scale(T, 10 ** (9 * fu - sc))
            if num.neg:
                T = l_scale(T, -1)
            return [("scale", f_eq(v.f, sc))] + value_is(c, v, T, fu) + wf(c, v) + wf_digits(c, v)
        drive(self, R, fn, args, post, self.oracle, ctx, 1, cmp_result(0))

    def exp_of(self, num):
        return -num.exp if num.eneg else num.exp


if __name__ == "__main__":
    sys.exit(main(Parse(sys.argv.pop(1))))
