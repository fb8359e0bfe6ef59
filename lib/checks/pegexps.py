"""C12: Pegexp matching.  C13: captures."""
import os
import vp
from checks.c18_ptr import J

PROPS = {"a": "azAZ", "d": "09", "h": "09afAF", "L": "az", "U": "AZ", "s": " \t\n\r\v\f", "w": "azAZ09"}
ESC = {"n": 10, "t": 9, "r": 13, "b": 8, "e": 27, "f": 12}
NEAR = [0x2F, 0x30, 0x39, 0x3A, 0x40, 0x41, 0x46, 0x47, 0x5A, 0x5B, 0x60, 0x61, 0x66, 0x67, 0x7A, 0x7B, 0x20, 8, 9, 13, 14, 0x1F, 0x7F]
WIDE = [0x80, 0xE9, 0xFF, 0x100, 0x141, 0x17F, 0x391, 0x3024, 0xFF21, 0x10FFFF, 0x1D7D8]


def utf8(c):
    return list(chr(c).encode("utf-8", "surrogatepass"))


class Gen:
    """random well-formed patterns, as (bytes, a text it may well match)"""
    def __init__(self, g, wide, labels=0.0, rich=0.3, calls=None):
        self.g, self.wide, self.labels, self.rich, self.calls, self.n = g, wide, labels, rich, calls, 0

    def char(self):
        """(pattern bytes, the character)"""
        g = self.g
        if g.random() > self.rich:
            c = g.choice("aab")
            return [ord(c)], ord(c)
        k = g.random()
        if k < .2:
            c = g.choice("abcxyz019 ,-/'\"=>]")
            return [ord(c)], ord(c)
        if k < .35:
            c = g.choice("^$.\\[]?*+{()}|&!~@#%_;<`:-")
            return [0x5C, ord(c)], ord(c)
        if k < .5:
            c = g.choice(sorted(ESC))
            return [0x5C, ord(c)], ESC[c]
        c = g.choice(NEAR + [0x61, 0x62]) if not self.wide or g.random() < .7 else g.choice(WIDE)
        if k < .65 and c < 512:
            o = "%o" % c
            return [0x5C] + list(o.rjust(3, "0").encode()), c
        if k < .8 and c < 256:
            h = g.choice(["%x", "%X"]) % c
            return ([0x5C] + list(("x" + h.rjust(2, "0")).encode())) if g.random() < .5 else ([0x5C] + list(("x{%s}" % h).encode())), c
        if c < 0x10000 and g.random() < .5:
            return [0x5C] + list(("u%04x" % c).encode()), c
        return [0x5C] + list(("u{%s}" % (g.choice(["%x", "%06X", "%08x"]) % c)).encode()), c

    def out(self, c):
        return utf8(c) if self.wide else [c & 255]

    def klass(self):
        g = self.g
        p, hits = [0x5B], []
        if g.random() < .3:
            p.append(0x5E)
            neg = True
        else:
            neg = False
        if g.random() < .15:
            p += [0x2D]
            hits.append(0x2D)
        first = len(p) == 1
        for _ in range(g.randint(1, 3)):
            k = g.random()
            if k < .25:
                q = g.choice(sorted(PROPS))
                p += [0x5C, ord(q)]
                hits.append(ord(g.choice(PROPS[q])))
            else:
                b, c = self.char()
                while b in ([0x5D], [0x2D], [0x5E], [0x5B]):
                    b, c = self.char()
                if k < .6:
                    p += b
                    hits.append(c)
                else:
                    b2, c2 = self.char()
                    while b2 in ([0x5D], [0x2D]) or (c2 < c and g.random() < .8):
                        b2, c2 = self.char()
                    p += b + [0x2D] + b2
                    hits += [c, c2, (c + c2) // 2]
        p.append(0x5D)
        h = g.choice(hits)
        return p, self.out(g.choice([0x21, 0x62, 0x7E, h]) if neg else h)

    def atom(self, d, tail=False):
        g = self.g
        k = g.random()
        label = lambda: self.label() if g.random() < self.labels else []
        if d <= 0 or k < .35:
            k = g.random()
            if self.calls and g.random() < .5:
                return self.calls(self)
            if k < .6:
                b, c = self.char()
                r = b, self.out(c)
            elif k < .7:
                r = [0x2E], self.out(g.choice([0x61, 0x62, 10]))
            elif k < .82:
                r = self.klass()
            elif k < .9:
                q = g.choice(sorted(PROPS))
                r = [0x5C, ord(q)], self.out(ord(g.choice(PROPS[q])))
            elif k < .94:
                r = [0x5E], []
            elif k < .97:
                r = [0x24], []
            else:
                r = [0x28, 0x29], []
            return r[0] + label(), r[1]
        if k < .6:
            b, t = self.atom(d - 1, tail)
            op = g.choice("?*+")
            return [ord(op)] + b + (label() if b[-1:] == [0x3A] and not self.looks(b) else []), t * {"?": g.randint(0, 1), "*": g.choice([0, 1, 2, 3]), "+": g.choice([1, 1, 2, 3])}[op]
        if k < .72:
            b, t = self.atom(d - 1, tail)
            return [ord(g.choice("&!"))] + b, []
        if tail and g.random() < .3:
            return self.alts(d - 1)
        b, t = self.alts(d - 1) if g.random() < .5 else self.seq(d - 1)
        return [0x28] + b + [0x29] + label(), t

    @staticmethod
    def looks(b):
        while b[0] in b"?*+":
            b = b[1:]
        return b[0] in b"&!<"

    def label(self):
        self.n += 1
        return [0x3A] + list(("%s%s" % (self.g.choice(["x", "y", "_n", "Z9"]), self.n % 10)).encode()) + [0x3A]

    def alts(self, d):
        g = self.g
        n = g.randint(1, 3)
        p, ts = [], []
        for i in range(n):
            if i == n - 1 and n > 1 and g.random() < .12:
                b, t = [], []
            else:
                b, t = self.seq(d, alt=True)
            p += [0x7C] + b
            ts.append(t)
        return p, g.choice(ts)

    def seq(self, d, alt=False):
        g = self.g
        p, t = [], []
        n = g.choice([1, 1, 2, 2, 3])
        for i in range(n):
            b, u = self.atom(d, tail=i == n - 1 and not alt)
            if not p and alt and b[:1] == [0x7C]:
                b = [0x28] + b + [0x29]
            p += b
            t = t + u
        return p, t


def pattern(g, wide, labels=0.0, most=40, depth=3):
    while True:
        p, t = Gen(g, wide, labels, g.choice([0, 0.1, 0.5])).seq(g.randint(1, depth))
        if len(p) <= most and len(t) <= 14:
            return p, t


def near(g, t, wide):
    t = list(t)
    k = g.random()
    ch = lambda: g.choice([[0x61], [0x61], [0x62], [0x0A], [0x78], utf8(g.choice(WIDE[:-1])), [g.choice(NEAR)]])
    for _ in range(g.choice([0, 1, 1, 2])):
        i = g.randint(0, len(t))
        r = g.random()
        if r < .4:
            t[i:i] = ch()
        elif r < .7 and t:
            del t[min(i, len(t) - 1)]
        elif r < .8:
            t = t + t[:4]
        elif t:
            t[min(i, len(t) - 1)] = ch()[0]
    return [b for b in t if b][:16]


def label_order(sc):
    return sc


def texts(g, t, wide, n):
    out = [[], t, near(g, t, wide)]
    while len(out) < n:
        out.append(near(g, t, wide) if g.random() < .7 else [g.choice([0x61, 0x61, 0x62, 0x0A]) for _ in range(g.randint(0, 6))])
    return out


def ops_for(g, p, t, wide, n):
    ops = ["pat %s %s" % ("w" if wide else "b", J(p))]
    for s in texts(g, [b for b in t if b], wide, n):
        ops.append("%s %d %s" % (g.choice(["here", "here", "find"]), g.choice([0, 0, 0, g.randint(0, len(s))]), J(s)))
    return ops


def generated(c, n, labels, per=6):
    g, sc = c.rng, []
    for _ in range(n):
        ops = []
        for _ in range(5):
            wide = g.random() < .7
            p, t = pattern(g, wide, labels)
            ops += ops_for(g, p, t, wide, per)
        sc.append(("", ops))
    return sc


def modelled(c, cfg, sample):
    t = c.tlc("PegModel", cfg, workers=vp.NCPU, timeout=300)
    sc, g = [], c.rng
    S = [[], [97], [98], [97, 97], [97, 98], [98, 97], [97, 97, 98], [97, 98, 97], [97, 97, 97]]
    pats = c.behaviours(t, sample)
    for i in range(0, len(pats), 10):
        ops = []
        for p in pats[i:i + 10]:
            ops.append("pat w %s" % J(p))
            ops += ["here 0 %s" % J(s) for s in S] + ["find 0 %s" % J(g.choice(S)), "find 1 97,97,98,97"]
        sc.append(("", ops))
    return sc


def singles(c):
    """every terminal against every character near it; every place of a few texts"""
    ops = []
    chars = list(range(1, 0x80)) + [0xC0, 0xFF]
    for wide in (True, False):
        enc = (lambda x: utf8(x)) if wide else (lambda x: [x])
        T = [enc(x) for x in range(1, 0x80)] + ([utf8(x) for x in WIDE] + [[0x80], [0xC3], [0xE2, 0x82], [0xC0, 0x80], [0xFD, 0xBF, 0xBF, 0xBF, 0xBF, 0xBF], [0xFF, 0xBF, 0xBF, 0xBF, 0xBF, 0xBF]] if wide else [[b] for b in (0x80, 0xC3, 0xE9, 0xFF)])
        pats = [[0x5C, ord(q)] for q in PROPS] + [[0x5B, 0x5C, ord(q), 0x5D] for q in PROPS] + [[0x5B, 0x5E, 0x5C, ord(q), 0x5D] for q in PROPS] + [[0x2E], [0x5E], [0x24]]
        for p in pats:
            ops.append(["pat %s %s" % ("w" if wide else "b", J(p))] + ["here 0 %s" % J(t) for t in T + [[]]])
        for x in list(range(1, 0x80)):
            raw = [x] if chr(x) not in "^$.\\[?*+{()}|&!:" else [0x5C, x]
            forms = [raw, [0x5C] + list(b"%03o" % x), [0x5C] + list(b"x%02X" % x), [0x5C] + list(b"u%04x" % x), [0x5C] + list(b"u{%x}" % x), [0x5C] + list(b"x{%x}" % x)]
            if not chr(x).isalnum():
                forms.append([0x5C, x])
            if chr(x).isalpha() and chr(x) in ESC:
                forms.append([0x5C, x])
            for f in forms:
                near_ = [y for y in (x - 1, x, x + 1, x ^ 32, x + 128 if not wide else x, 1, 0x61) if 0 < y < (0x80 if wide else 0x100)]
                ops.append(["pat %s %s" % ("w" if wide else "b", J(f))] + ["here 0 %s" % J(enc(y)) for y in near_] + ["here 0 -"])
        for b in (range(0x80, 0x100) if not wide else ()):
            for f in ([b], [0x5C] + list(b"%o" % b), [0x5C] + list(b"x%x" % b)):
                ops.append(["pat b %s" % J(f)] + ["here 0 %d" % y for y in (b, b - 1, b & 127 or 1, 0xFF)])
    flat = [(o) for o in ops]
    return [("", sum(flat[i:i + 20], [])) for i in range(0, len(flat), 20)]


def totality(c, n):
    g, sc = c.rng, []
    A = [ord(x) for x in "ab()|*+?!&^$.[]\\-:x{}u<>~_7"] + [1, 10, 0xC3, 0xFF]
    T = [[], [97], [97, 98, 97], [0x0A, 97], [0xC3], [0xE2, 0x82, 0xAC, 97], [0x3C, 0x28, 0x29]]
    for _ in range(n):
        ops = []
        for _ in range(20):
            k = g.random()
            if k < .5:
                p = [g.choice(A) for _ in range(g.randint(1, 9))]
            else:
                p, _t = pattern(g, True, .2)
                p = p[:g.randint(0, len(p))] if k < .75 else p + []
                for _ in range(g.randint(0, 2)):
                    p.insert(g.randint(0, len(p)), g.choice(A))
            ops.append("pat %s %s" % (g.choice("wb"), J(p)))
            ops += ["any " + J(t) for t in g.sample(T, 3)]
        sc.append(("", ops))
    return sc


def large(c, n, labels):
    """Long texts, long patterns, deep nesting, many alternatives and labels"""
    g, sc = c.rng, []
    B = lambda x: list(x.encode())
    SIZES = [31, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
    for i in range(n):
        wide = i % 2 == 0
        ch = [97, 98] + ([0x20AC, 0x1F600] if wide else [0xE9])
        enc = lambda cs: sum(((utf8(x) if wide else [x]) for x in cs), [])
        m, k = g.choice(SIZES), g.choice([5, 9, 17, 33])
        lab = lambda j: B(":n%d:" % j) if labels and g.random() < labels else []
        f = i % 7
        if f == 0:          # repeats
            p = g.choice([B("*a"), B("+a"), B("*.") if g.random() < .5 else B("+[ab]"), B("*\\a+b"), B("*(ab)?a"), B("*!b."), B("+(&a.)")])
            if labels and p[-1:] != [0x29] and b"!" not in bytes(p) and b"(" not in bytes(p):
                p = p[:1] + [0x28] + p[1:] + B("):r:")
            T = [[97] * m, [97] * m + [98], [97, 98] * (m // 2), [97, 98] * (m // 2) + [97], [98] * m + [97] * 3]
        elif f == 1:        # literals
            t = [g.choice(ch) for _ in range(m)]
            p = []
            for j, x in enumerate(t):
                p += enc([x]) + (lab(j) if j % 8 == 0 else [])
            T = [t, t[:-1], t[:-1] + [99], t + t, t[1:] + t]
        elif f == 2:        # alternatives, of which a late one fits
            alts = ["".join(chr(97 + (j * q) % 7) for q in (1, 2, 3)) + "%d" % j for j in range(k)]
            p = sum(([0x7C] + sum((enc([ord(x)]) for x in a), []) + lab(j) for j, a in enumerate(alts)), [])
            if g.random() < .5:
                p = B("+(") + p + B(")")
            o = lambda a: [ord(x) for x in a]
            T = [o(alts[-1]), o(alts[-2]) + o(alts[-1]), o(alts[0]) * 3 + o(alts[-1]), o("".join(alts)), o(alts[-1])[:-1]]
        elif f == 3:        # nesting
            d = g.choice([5, 9, 16, 17, 24])
            p, inner = [], [97]
            for j in range(d):
                r = g.random()
                inner = (B("(") + inner + B(")") + lab(j)) if r < .5 else (B("(") + inner + B("b)") + lab(j)) if r < .8 else (B("?(") + inner + B(")")) if r < .9 else (B("(|c|") + inner + B(")"))
            p = inner
            T = [[97], [97, 98], [97] + [98] * d, [97] + [98] * 3, [99, 98, 98], [98]]
        elif f == 4:        # a long class
            mem = g.sample(range(0x100, 0x2000) if wide else range(0xA0, 0x100), min(m, 90))
            p = B("+[") + g.choice([[], [0x5E]]) + enc(mem) + B("]")
            T = [mem, mem[-1:], [97] + mem, mem + [97], [0x3000 if wide else 0x81]]
        elif f == 5:        # a long sequence of items
            p, t = [], []
            for j in range(k):
                x = g.choice(ch)
                b = g.choice([enc([x]), B("(") + enc([x]) + B(")"), B("[") + enc([x]) + B("c]"), B("?") + enc([x]), B("*") + enc([x])])
                p += b + (lab(j) if b[0] not in b"?*" else [])
                t.append(x)
            T = [t, t[:-1], t + [97], [c2 for c2 in t for _ in (0, 1)], t[: len(t) // 2]]
        else:               # found a long way in
            p = g.choice([B("b$"), B("bc"), B("^b"), B("b*a$"), B("ba"), B("(|ba|c)")])
            T = [[97] * m + [98], [97] * m + [98, 99], [10] * m + [98, 97], [97] * m + [98] + [97] * m, [97, 10] * (m // 2) + [98]]
        ops = ["pat %s %s" % ("w" if wide else "b", J(p))]
        for t in T:
            s = enc(t)
            ops.append("%s %d %s" % (g.choice(["here", "find"]) if f < 6 else "find", g.choice([0, 0, 0, min(len(s), g.choice([1, 2, 60]))]), J(s)))
        sc.append(("", ops))
    return sc


def unsafe(c, cfg, switches):
    unsafe_of(c, "PegModel", cfg, switches)


def unsafe_of(c, module, cfg, switches):
    base = open(os.path.join(vp.SPEC, cfg)).read()
    for sw in switches:
        q = os.path.join(c.tmp, sw + ".cfg")
        open(q, "w").write(base.replace(sw + " = TRUE", sw + " = FALSE"))
        t = c.tlc(module, q, workers=vp.NCPU, timeout=120)
        if "is violated" not in t.out:
            raise vp.CheckError("%s without %s is not rejected\n%s" % (module, sw, t.out[-2000:]))
    c.extra["unsafe_designs_rejected_by_model"] = c.extra.get("unsafe_designs_rejected_by_model", 0) + len(switches)


def run_c12(c):
    c.model_check("PegModel", "PegModelBig.cfg" if c.thorough else None, minimum=100000)
    unsafe(c, "PegModel.cfg", ["SkipOperand", "SkipAlternates", "RestorePattern", "KeepParen"])
    drv = c.build("pegexp", ["pegexp_drv.cpp"], lib=True)
    c.conform(drv, "PegTrace", modelled(c, "PegModelRec.cfg", c.n(1500, None)), label="model")
    c.conform(drv, "PegTrace", singles(c), label="singles")
    c.conform(drv, "PegTrace", generated(c, c.n(600, 12000), 0.05) + large(c, c.n(60, 700), 0), label="random")
    c.conform(drv, "PegTraceAny", totality(c, c.n(300, 6000)), label="any")


def run_c13(c):
    c.model_check("PegModel", "PegModelLabBig.cfg" if c.thorough else "PegModelLab.cfg", minimum=100000)
    unsafe(c, "PegModelLab.cfg", ["RollBack"])
    drv = c.build("pegexp", ["pegexp_drv.cpp"], lib=True)
    c.conform(drv, "PegTrace", modelled(c, "PegModelRecLab.cfg", c.n(1500, None)), label="model")
    c.conform(drv, "PegTrace", generated(c, c.n(800, 15000), 0.5) + large(c, c.n(30, 500), .7), label="random")
