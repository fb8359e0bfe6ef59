"""C16: what a regular expression matches.  C17: that it always can be tried."""
import vp
from checks.c18_ptr import J
from checks.pegexps import unsafe_of

ALL, EXT, ANYQ, STARANY = 0xFFFFF, 0x20000000, 0x1000000, 0x2000000
CEsc, Short, Oct, Hex, Uni, Prop, Cls, Quest, Star, Plus, Count, Alt, Group, Capture, NonCap, Look, BOL, EOL = \
    1, 2, 4, 8, 16, 32, 64, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 0x40000, 0x80000
FEATURES = [CEsc, Short, Oct, Hex, Uni, Prop, Cls, Quest, Star, Plus, Count, Alt, Group, Capture, NonCap, Look, BOL, EOL]
C = lambda s: [ord(c) for c in s]
SPECIAL = C("^$.?*+{\\[|() \t\r\n")
WIDE = [0xE9, 0x3B1, 0x20AC, 0xFFFD, 0x1F600, 0x10FFFF, 0x7FF, 0x800, 0x80, 0xFFFF]
DIGIT = C("019") + [0x660, 0x966]
WHITE = C(" \t\n") + [0xA0, 0x2003, 0x3000]


class Gen:
    """Expressions, each with a text that it may match."""

    def __init__(self, g, few=False, wide=.05, ext=False, caps=.3, counts=.3):
        self.g, self.few, self.wide, self.ext, self.caps, self.counts = g, few, wide, ext, caps, counts
        self.names, self.looks = 0, 0

    def char(self):
        g = self.g
        if g.random() < self.wide:
            return g.choice(WIDE)
        return ord(g.choice("ab" if self.few else g.choice(["ab", "abc", "xyz0A}-]>:!,#"])))

    def lit(self):
        g, c = self.g, self.char()
        k = g.random()
        if k < .86:
            return [c], [c]
        if k < .90:
            c = g.choice(SPECIAL)
            return [92, c], [c]
        if k < .92:
            e, v = g.choice([("b", 8), ("e", 27), ("f", 12), ("n", 10), ("t", 9), ("r", 13)])
            return C("\\" + e), [v]
        if k < .94:
            v = g.choice([1, 7, 8, 63, 64, 97, 511, 48])
            return C("\\" + g.choice(["%o", "%03o"]) % v), [v]
        if k < .96:
            v = g.choice([1, 10, 16, 97, 255, 98])
            return C("\\x" + g.choice(["%x", "%02x", "%X"]) % v), [v]
        v = g.choice([1, 97, 0xE9, 0x20AC, 0xFFFFF, 0x1F600])
        return C("\\u" + g.choice(["%x", "%05x", "%X"]) % v), [v]

    def cls(self):
        g = self.g
        neg = g.random() < .3
        p, rs = [], []

        def one(first):
            c = g.choice(WIDE) if g.random() < self.wide else ord(g.choice("abcxyz019-]^\\"))
            if first and c in C("-]"):
                return [c], c
            return ([92, c] if c in C("-]\\^") or g.random() < .1 else [c]), c
        for i in range(g.randint(1, 3)):
            q, c = one(i == 0)
            bare = i == 0 and q in ([45], [93])
            p += q
            if not bare and g.random() < .4:
                r, d = one(False)
                p += [45] + r
                rs.append((c, d))
            else:
                rs.append((c, c))
        if g.random() < .1:
            p.append(45)
            rs.append((45, 45))
        m = [a for a, b in rs if a <= b] or [97]
        t = g.choice(m)
        if neg:
            t = next((x for x in C("abcxyz019-]^ ") if not any(a <= x <= b for a, b in rs)), 33)
        return C("[") + (C("^") if neg else []) + p + C("]"), [t]

    def atom(self, depth):
        """(pattern, text, can match nothing, may be repeated)"""
        g = self.g
        k = g.random()
        if k < .06:
            return C("."), [self.char()], False, True
        if k < .14:
            p, t = self.cls()
            return p, t, False, True
        if k < .18:
            c = g.choice("sdh")
            return C(g.choice(["\\" + c, "\\p{%s}" % c])), [g.choice({"s": WHITE, "d": DIGIT, "h": DIGIT + C("aFf")}[c])], False, True
        if k < .24:
            return C(g.choice("^$")), g.choice([[], [10]]) if g.random() < .3 else [], True, False
        if depth > 0 and k < .55:
            kind = g.random()
            if kind < self.caps and self.names < 3:
                self.names += 1
                op = C("(?<%s>" % g.choice(["n%d" % self.names, "n%d-\u20ac" % self.names, "%d" % self.names]))
            elif kind < self.caps + .08 and self.looks < 2:
                self.looks += 1
                p, t, e = self.alts(depth - 1)
                return C("(?!") + p + C(")"), [], True, g.random() < .3
            else:
                op = C(g.choice(["(", "(", "(?:"]))
            p, t, e = self.alts(depth - 1)
            return op + p + C(")"), t, e, True
        p, t = self.lit()
        return p, t, False, True

    def rep(self, p, t, e, depth):
        g = self.g
        k = g.random()
        if k < .45 or not self.counts:
            c = g.choice("?*+")
            n = {"?": (0, 1), "*": (0, 3), "+": (1, 3)}[c]
            return p + C(c), t * g.randint(*n), e or c != "+"
        lo = g.choice([0, 0, 1, 2, 2, 3])
        hi = g.choice([0, lo, lo + 1, lo + 2])
        if lo == hi and g.random() < .7:
            q = "{%d}" % lo
        else:
            q = "{%s,%s}" % (lo if lo or g.random() < .5 else "", hi if hi or g.random() < .5 else "")
        if g.random() < .1:
            q = q.replace(",", " , ").replace("}", " }")
        return p + C(q), t * g.choice([lo, lo, hi if hi else lo + 1, max(hi - 1, lo), hi + 1]), e or lo == 0

    def seq(self, depth):
        g = self.g
        p, t, e = [], [], True
        for _ in range(g.choice([0, 1, 1, 2, 2, 3]) if depth else g.choice([1, 1, 2])):
            q, u, f, again = self.atom(depth)
            if again and g.random() < .4:
                q, u, f = self.rep(q, u, f, depth)
            if self.ext and g.random() < .3:
                q = q + C(g.choice([" ", "\t", "\n", "  ", " #x)\n"]))
            p, t, e = p + q, t + u, e and f
        return p, t, e

    def alts(self, depth):
        g = self.g
        xs = [self.seq(depth) for _ in range(g.choice([1, 1, 1, 2, 2, 3]))]
        p = []
        for i, x in enumerate(xs):
            p += (C("|") if i else []) + x[0]
        x = g.choice(xs)
        return p, x[1], any(x[2] for x in xs)


def near(g, t, few):
    """a text like t"""
    t = list(t)
    for _ in range(g.choice([0, 1, 1, 2])):
        k, c = g.random(), g.choice(C("ab") if few else C("abcx01 \n") + WIDE[:3])
        i = g.randint(0, len(t))
        if k < .3:
            t[i:i] = [c]
        elif k < .5:
            del t[i:i + 1]
        elif k < .7:
            t[i:i + 1] = [c]
        elif k < .9:
            t[:0] = t[:3] if g.random() < .5 else [c]
        else:
            t += t[:3]
    return t


def plain(q):
    return all(0 < x < 0x110000 and not 0xD800 <= x < 0xE000 for x in q)


def matching(g, t, few, per):
    """operations on texts"""
    out = []
    for x in [t, []] + [near(g, t, few) for _ in range(per - 2)]:
        x = [c if plain([c]) else 97 for c in x][:14]
        if x and g.random() < .06:
            x[g.randrange(len(x))] = 0
        k = g.random()
        off = 0 if k < .5 else g.randint(0, len(x)) if k < .97 else len(x) + g.choice([1, 5])
        out.append("%s %d %s" % (g.choice(["find", "find", "at"]), off, J(x)))
    return out


def generated(c, n, per=7):
    g, sc = c.rng, []
    for _ in range(n):
        ops = []
        for _ in range(4):
            few, ext = g.random() < .6, g.random() < .2
            while True:
                gen = Gen(g, few, g.choice([0, .1]), ext, g.choice([0, .3, .6]), g.choice([0, 1]))
                p, t, e = gen.alts(g.randint(0, 3))
                if len(p) <= 30 and len(t) <= 12:
                    break
            on, rej = ALL | (EXT if ext else 0), 0
            k = g.random()
            if k < .1:
                on &= ~g.choice(FEATURES)
            elif k < .15:
                rej |= g.choice(FEATURES)
            elif k < .2:
                on |= g.choice([ANYQ, STARANY, ANYQ | STARANY])
            ops.append("re %s %d %d %d" % (J(p), on, rej, g.random() < .5))
            ops += matching(g, t, few, per)
        sc.append(("", ops))
    return sc


def noise(g):
    """characters that may be an expression"""
    k = g.random()
    if k < .35:
        return [g.choice(C("ab()|*+?{}[]^$.\\-,:!<>=12 #\nxu")) for _ in range(g.randint(0, 9))]
    if k < .6:                      # pieces
        out = []
        for _ in range(g.randint(1, 5)):
            out += C(g.choice(["a", "b", "(", ")", "(", ")", "|", "*", "+", "?", "{2}", "{1,2}", "{,}", "{0}", "{3,1}", "{2", "{a}", "{-1}", "{+2}", "{ 2 }", "{65538}", "{254}", "{255}", "{4294967298}", "{,300}", "{1,2,3}",
                               "(?<a>", "(?<b>", "(?<>", "(?<a", "(?:", "(?!", "(?", "(?x)", "[a-c]", "[^a]", "[]", "[]a]", "[^]a]", "[^", "[a", "[a-", "[a-]", "[-a]", "[--a]", "[b-a]", "[\\]]", "[\\", "[a\\-b]", "[]-a]",
                               "\\", "\\a", "\\x", "\\x6", "\\x61", "\\x611", "\\x0x", "\\x-1", "\\x 1", "\\u", "\\u61", "\\u000611", "\\ug", "\\+1", "\\u+1", "\\0", "\\18", "\\1 ", "\\777", "\\p", "\\p{s}", "\\p{", "\\p{}", "\\ps", "\\s", "\\d", "\\h",
                               "^", "$", ".", " ", " #a\n", "#", " *", " {2}", ",", "}", "]", ">", "-"]))
        return out
    p, t, e = Gen(g, True, .1, False, .4, 1).alts(2)
    for _ in range(g.randint(1, 3)):
        i = g.randint(0, len(p))
        k = g.random()
        if k < .5:
            del p[i:i + g.choice([1, 1, 3])]
        else:
            p[i:i] = [g.choice(C("()|*{}[]\\?a"))]
    return p[:24]


def anything(c, n):
    g, sc = c.rng, []
    for _ in range(n):
        ops = []
        for _ in range(12):
            p = noise(g)
            on, rej = ALL | (EXT if g.random() < .2 else 0), 0
            k = g.random()
            if k < .25:
                on = g.choice([0, on & g.getrandbits(20), on & ~g.choice(FEATURES)]) | (on & EXT)
            elif k < .4:
                rej = g.choice([g.choice(FEATURES), g.getrandbits(20) & 0xDFF7F])
            elif k < .5:
                on |= g.choice([ANYQ, STARANY, ANYQ | STARANY])
            ops.append("re %s %d %d %d" % (J(p), on, rej, g.random() < .5))
            ops += matching(g, [x for x in p if x in C("ab")][:4], True, 3)
        sc.append(("", ops))
    return sc


def cases(L, most=30):
    """a list of (expression, texts) as scenarios"""
    sc, ops = [], []
    for p, ts, *on in L:
        ops.append("re %s %d 0 %d" % (J(p), on[0] if on else ALL, len(ops) % 2))
        for t in ts:
            ops.append("find 0 " + J(t))
            if len(t) < 40:
                ops.append("at %d %s" % (min(1, len(t)), J(t)))
        if len(ops) > most:
            sc.append(("", ops))
            ops = []
    return sc + ([("", ops)] if ops else [])


def sized(c):
    """code of every size where the size of an offset changes"""
    g, out = c.rng, []
    sizes = list(range(8, 70, c.n(3, 1))) + list(range(120, 132, c.n(4, 1))) + c.n([], list(range(500, 530, 3))) + c.n([512], [])
    x = lambda n: [97 + (i * i + i // 3) % 5 for i in range(n)]
    for n in sizes:
        b, q = C("("), C(")")
        L = x(n)
        few = n > 200
        for p, ts in [(L + C("|q"), [L, C("q")]), (C("q|") + L, [L, C("q")]), (b + L + q + C("*z"), [L + L + C("z"), L + C("z"), C("z")]),
                      (b + L + q + C("?z"), [L + C("z"), C("z")]), (b + L + q + C("+z"), [L + L + C("z"), L + C("z"), C("z")]),
                      (b + L + q + C("{2}z"), [L + L + C("z"), L + C("z")]), (C("(q|") + L + C("|r)*z"), [C("qr") + L + C("qz"), L + C("z")]),
                      (C("(?!") + L + C(")a.*"), [L, L[:-1]]), (C("(?<x>") + L + C("|b|") + L[:n // 2] + C(")+$"), [L + C("b"), C("bb"), L[:n // 2]]),
                      (C("((q|") + L + C(")?|r)*z"), [C("qrr") + L + C("z")]), (C("(") * 3 + L + C("|p)*|q)*|r)*") , [L + C("pqr") + L]),
                      (C("(a|(b|(c|") + L + C(")*)*)*"), [C("abc") + L + C("cba")])][::4 if few else 1]:
            out.append((p, ts))
    return cases(out)


def many(c):
    """many alternates, groups, options, counts, and the deepest groups"""
    out = []
    for n in (1, 2, 11, 12, 13, 14, 30) + c.n((), (60, 100)):
        alts = [C("%c%c" % (97 + i % 26, 97 + i // 26)) for i in range(n)]
        bar = lambda xs: sum([C("|") + x for x in xs], [])[1:]
        out.append((bar(alts), [alts[-1], alts[0], C("zz"), alts[n // 2] + alts[-1]]))
        out.append((C("(") + bar(alts) + C(")*z"), [alts[-1] + alts[0] + C("z"), alts[n // 2] * 3 + C("z")]))
        out.append((C("(") + bar(alts) + C("){3}"), [alts[-1] + alts[0] + alts[n // 2]]))
        out.append((C("a?") * n + C("a") * min(n, 12), [C("a") * min(n, 12), C("a") * (n + 2), C("a") * (min(n, 12) - 1)]))
        out.append((C("(a?|b?)") * n + C("c"), [C("ababc"), C("c"), C("ab")]))
        out.append((C("|") * n, [[], C("a")]))
        out.append((C("(|") * min(n, 11) + C("a") + C(")") * min(n, 11), [[], C("a"), C("aa")]))
        out.append((C("a*") * n, [C("aa"), []]))
        out.append((C("a{0,2}") * n + C("b"), [C("aab"), C("b")]))
        out.append((C("^") * n + C("a") + C("$") * n, [C("a"), C("b\na\nb"), C("ab")]))
        out.append((C("(?!b)") * n + C("."), [C("ba"), C("b"), C("a")]))
        out.append((b"".join(b"(?<g%d>%c)" % (i, 97 + i % 3) for i in range(n)), [[97 + i % 3 for i in range(n)]]))
        out[-1] = (list(out[-1][0]), out[-1][1])
    for n in (2, 3, 4, 9, 10, 11, 12, 13):
        for op in ("(", "(?:", "(?!", "(?<n%d>"):
            for rep in ("", "?", "{2}") if n > 4 else ("", "*", "+", "?", "{2}", "{0,2}", "{2,}", "{1,2}"):
                if op == "(?!" and n > 9 and rep:
                    continue
                p = sum([C(op.replace("%d", str(i))) for i in range(n)], []) + C("a") + C(")" + rep) * n
                out.append((p, [C("a"), C("aaaa"), []]))
    for n in (1, 2, 3, 100, 126, 127, 128, 129, 253, 254):
        for q in ("{%d}", "{%d,}", "{0,%d}", "{,%d}", "{1,%d}", "{%d,254}"):
            out.append((C("%sa" % ("^" if n > 9 else "") + q % n + "b"), [C("a") * k + C("b") for k in sorted({0, 1, n - 1, n, n + 1})]))
    for p in ("(x{2}){2}", "((x{2}){2}){2}", "(((x{2}){2}){2}){2}", "((((x{2}){2}){2}){2}){2}", "((x{1,2}){1,2}){2,3}y", "((x{2,3}y?){2}z?){2}", "((xx?){2}){2}y", "(x{0,2}y){2}", "((x|xx){2}){2,}y", "(x*){2}y", "(x*){3,5}", "(x?y?){2,3}z"):
        out.append((C(p), [C(t) for t in ("", "xx", "xxxx", "xxxxx", "xxxxy", "xxxxxxxxy", "axxxxxxxxb", "xyxyz", "yxxy", "xxyxxy", "xxxyxxzxxyxx") + c.n((), ("x" * 16, "x" * 32, "a" + "x" * 33))]))
    for p in ("(ab){2}c", "(ab){2,3}c", "(ab){3,}c", "(a.){2}b", "(aa?){2}b", "(a|ab|b){2}c", "(ab?){1,3}c", "((a|b){2}c){2}", "(abc){0,2}d", "(a{2}b){2}"):
        out.append((C(p), [C(t) for t in ("abc", "ababc", "abababc", "ababababc", "aaaaab", "aaab", "abab", "cabcabc", "aabaabc", "abcabcabcd", "d", "bcbcd", "aabaab", "aaabaab")]))
    return cases(out)


TEXTS = [[]] + [[97 + (b >> i & 1) for i in range(n)] for n in (1, 2, 3, 4) for b in range(1 << n)]


def modelled(c, sample):
    """every expression the model grows, as the real compiler and matcher see it"""
    t = c.tlc("RxModel", "RxModelRec.cfg", workers=vp.NCPU, timeout=300, heap="8g")
    if t.rc:
        raise vp.CheckError("RxModelRec.cfg: " + t.out[-2000:])
    sc = []
    found = c.behaviours(t, sample)
    for i in range(0, len(found), 4):
        ops = []
        for p in found[i:i + 4]:
            ops.append("re %s %d 0 %d" % (J(p), ALL, c.rng.random() < .5))
            ops += ["find 0 " + J(x) for x in c.rng.sample(TEXTS, 6)] + ["at %d %s" % (c.rng.randint(0, len(x)), J(x)) for x in c.rng.sample(TEXTS, 3)]
        sc.append(("", ops))
    return sc


def singles(c):
    """every character, in every form, against those near it; every class and property; every feature off and rejected"""
    ops = []
    chars = list(range(1, 0x80)) + WIDE
    for x in chars:
        forms = [[x] if x not in SPECIAL else [92, x], C("\\u%x" % x) if x < 0x100000 else [x], C("\\u%05x" % x) if x < 0x100000 else [x], C("[") + ([92, x] if x in C("]\\^-") else [x]) + C("]")]
        if x < 512:
            forms += [C("\\%03o" % x), C("\\%o" % x)]
        if x < 256:
            forms += [C("\\x%02x" % x), C("\\x%X" % x)]
        if not (48 <= x <= 57 or chr(x).isalpha()):
            forms.append([92, x])
        elif chr(x) in "befntrsdhacgijklmoqvwyzABDGXPUSDH":
            forms.append([92, x])
        for f in c.n(c.rng.sample(forms, 3), forms):
            ops.append(["re %s %d 0 0" % (J(f), ALL)] + ["find 0 " + J([y]) for y in (x, x + 1, x - 1, x ^ 32, 7) if plain([y])] + ["find 0 " + J([97, 98, x, 99])])
    T = list(range(1, 0x80, c.n(3, 1))) + WIDE + WHITE + DIGIT + [0x85, 0xA0, 0x1680, 0x180E, 0x200B, 0x2028, 0xFEFF, 0x661, 0xFF19, 0x1D7CE, 0xB2, 0x2460, 47, 58, 64, 71, 96, 103]
    for p in ("\\s", "\\d", "\\h", "\\p{s}", "\\p{d}", "\\p{h}", "\\p{xyz}", ".", "[^a]", "[!-~]", "[\u00e9-\u20ac]", "[^\u00e9-\u20ac]", "[a-cx-z5]", "[]-a]", "[-a]", "[a-]", "[--/]", "[^]]", "[^-]"):
        ops.append(["re %s %d 0 0" % (J(C(p)), ALL)] + ["find 0 " + J([y]) for y in T])
    forms = ["\\n", "\\s", "\\141", "\\x61", "\\u61", "\\p{d}", "[ab]", "a?b", "a*b", "a+b", "a{2}b", "a|b", "(a)b", "(?<n>a)b", "(?:a)b", "(?!a)b", "^a", "b$", "a.b", "(?", "(?<n", "?a", "*a", "+a", "{a", "[a", "\\", ")", "(", "a{", "]", "}", "()", "?", "*", "a **b", "a #b"]
    T = [C(t) for t in ("", "a", "b", "ab", "aab", "\n", "s", "n", "141", "x61", "u61", "p{d}", "[ab]", "a?b", "a*b", "a+b", "a{2}b", "a|b", "(a)b", "(?<n>a)b", "(?:a)b", "(?!a)b", "^a", "b$", "a.b", "5", "1")]
    for f in forms:
        on = [(ALL, 0), (0, 0), (0, ALL & 0xDFF7F), (ALL, ALL & 0xDFF7F), (ALL | EXT, 0), (ALL | ANYQ, 0), (ALL | STARANY, 0), (ANYQ | STARANY, 0), (EXT, 0)] + [(ALL & ~x, 0) for x in FEATURES] + [(ALL, x) for x in FEATURES]
        for a, b in on:
            ops.append(["re %s %d %d 0" % (J(C(f)), a, b)] + ["find 0 " + J(t) for t in c.rng.sample(T, 3) + [C(f)]])
    return [("", sum(ops[i:i + 12], [])) for i in range(0, len(ops), 12)]


def invalid(c, n):
    """bytes that may not be characters at all, in expressions and in texts"""
    g, sc = c.rng, []
    wild = [0, 1, 0x7F, 0x80, 0xBF, 0xC0, 0xC3, 0xE2, 0x82, 0xED, 0xA0, 0xF0, 0x9F, 0xF4, 0x90, 0xF8, 0xFC, 0xFD, 0xFE, 0xFF]
    text = lambda: [g.choice(wild) if g.random() < .5 else g.choice(C("ab\n")) for _ in range(g.randint(0, 9))]
    for _ in range(n):
        ops = []
        for _ in range(15):
            p = [b for x in noise(g) for b in (chr(x).encode() if plain([x]) else b"a")]
            for _ in range(g.choice([0, 1, 1, 2, 4])):
                i = g.randint(0, len(p))
                p[i:i + g.choice([0, 0, 1])] = [g.choice(wild)]
            ops.append("bytes %s %d %d" % (J(p), ALL | (EXT if g.random() < .2 else 0), g.random() < .5))
            for t in (text(), text(), [x for x in p][:8]):
                ops.append("findb %d %s" % (0 if g.random() < .7 else g.randint(0, 3), J(t)))
        sc.append(("", ops))
    return sc


def large(c):
    """expressions, and texts, as long as memory allows rather than as the stack does"""
    g, out = c.rng, []
    for n in c.n((1000, 4000), (1000, 4000, 20000)):
        m = n // 4
        T = [C("a") * n, C("ab") * m, C("b") * 3, []]
        for p in (C("a") * n, C("a|") * m + C("b"), C("|") * m, C("(a)") * m, C("(a|b)") * (m // 4), C("a?") * (m // 8), C("a*") * (m // 8), C("[ab]") * m, C("[") + C("ab") * m + C("]"), C("(?<") + C("n") * n + C(">a)"), C("\\x61") * m, C("^") * n, C("^*") * n, C("(") * n, C(")") * n,
                  C("\\p{") + C("q") * n + C("}"), C("a{1}") * (m // 4), C("(?!b)") * (m // 4) + C("a"), C("a{") + C("9") * n + C("}"), C("a{") + C("0") * n + C("2}"), [0x20AC] * n, C("(a") * m, C("a)") * m, C("(?<x>)") * 300, sum([C("(?<x%d>a|)" % i) for i in range(253)], []), sum([C("(?<x%d>)" % i) for i in range(260)], [])):
            q = [b for x in p for b in chr(x).encode()]
            wide = p[0] != 97 or p[1] != 97
            out.append(["bytes %s %d %d" % (J(q), ALL, len(out) % 2)] + ["findb 0 " + J(t[:60] if wide else t) for t in T[1 if n > 2000 else 0:]])
    deep = c.n(3000, 20000)
    for p in ("a*", "(a|b)*c", "(a*)*b", "(a|aa)*$", "((a|b)(a|b)?)*c", ".*b", "(?<x>a|b)*c", "a{2,}b", "(a{2}){2,}$", "(a|a)*b", "(?!b)a*$", "(a?){3,}b"):
        out.append(["bytes %s %d 1" % (J(C(p)), ALL), "findb 0 " + J(C("a") * (deep // 10 if p == ".*b" else deep // 8)), "findb 0 " + J(C("ab") * (deep // 16) + C("c"))])
    return [("", o) for o in out]


def limits(c):
    """the most groups, names, counts and depths that there may be, one fewer and one more"""
    out = []
    for n in (253, 254, 255, 256):
        out.append((sum([C("(?<%d>%s)" % (i, "a?" if i % 100 == 7 else "")) for i in range(n)], []), [C("aa"), C("")]))
    out.append((sum([C("(?<%d>)" % i) for i in range(60)], []) + C("(?<59>a)"), [C("a")]))
    out.append((sum([C("(?<%d>)" % i) for i in range(60)], []) + C("(?<0>a)"), [C("a")]))
    for n in (253, 254, 255, 256, 257, 510, 511, 512):
        for q in ("{%d}", "{%d,}", "{,%d}", "{1,%d}"):
            out.append((C("a" + q % n + "b"), [C("a") * k + C("b") for k in (n - 1, n, n + 1) if n < 300]))
    for n in (10, 11, 12, 13):
        for op, end in (("(", ")"), ("(?:", ")"), ("(?!", ")"), ("(?<%d>", ")"), ("(b|", ")"), ("(", ")?"), ("(", "){2}")):
            out.append((sum([C(op.replace("%d", str(i))) for i in range(n)], []) + C("a") + C(end) * n, [C("ab"), C("")]))
            out.append((C("(x)") + sum([C(op.replace("%d", str(i))) for i in range(n)], []) + C("a") + C(end) * n + C("(y)"), [C("xay")]))
            out.append((sum([C(op.replace("%d", str(i))) for i in range(n)], []) + C("a") + C(end) * (n - 1), [C("a")]))
    return cases(out, 0)


def run_c16(c):
    c.model_check("RxModel", "RxModelBig.cfg" if c.thorough else "RxModelCap.cfg", minimum=20000)
    unsafe_of(c, "RxModel", "RxModel.cfg", ["SameCounts", "Bypass", "LastEnd", "FirstStart", "Continue"])
    drv = c.build("rx", ["rx_drv.cpp"], lib=True, rx=True)
    c.conform(drv, "RxTrace", modelled(c, c.n(2500, 40000)), label="model")
    c.conform(drv, "RxTrace", singles(c), label="singles")
    c.conform(drv, "RxTrace", many(c), label="many")
    c.conform(drv, "RxTrace", generated(c, c.n(1000, 25000)), label="random")


def run_c17(c):
    c.model_check("RxModel", "RxModel.cfg", minimum=20000)
    unsafe_of(c, "RxModel", "RxModel.cfg", ["Saturate"])
    drv = c.build("rx", ["rx_drv.cpp"], lib=True, rx=True)
    c.conform(drv, "RxTrace", anything(c, c.n(2500, 40000)), label="any")
    c.conform(drv, "RxTrace", sized(c), label="sized")
    c.conform(drv, "RxTrace", limits(c), label="limits")
    # with the allocator that knows what was allocated how
    drv = c.build("rxa", ["rx_drv.cpp"], lib=True, rx=True, flags=["-DVP_NO_NEW"])
    c.conform(drv, "RxTrace", invalid(c, c.n(500, 8000)), label="bytes")
    c.conform(drv, "RxTrace", large(c), label="large", env={"VP_CPU": "60"})
