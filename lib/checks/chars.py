"""C10: codecs.  C11: character properties."""
import itertools


def J(v):
    return ",".join(map(str, v)) or "-"


def run_c10(c):
    c.model_check("CodecModel", "CodecModelBig.cfg" if c.thorough else None, minimum=10000)
    g = c.rng
    sc, ops = [], ["lead"] + ["pad %d" % n for n in range(7)]
    # texts
    A = [0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xC3, 0xE0, 0xE2, 0xEF, 0xF0, 0xF7, 0xF8, 0xFB, 0xFC, 0xFF]
    for n in range(c.n(4, 5)):
        ops += ["text " + J(v) for v in itertools.product(A, repeat=n)]
    B = [0x41, 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF9, 0xFD]
    for n in (4, 5, 6, 7):
        k = len(B) ** n
        ops += ["text " + J(v) for v in (itertools.product(B, repeat=n) if k <= c.n(4096, 300000) else ([g.choice(B) for _ in range(n)] for _ in range(c.n(1500, 20000))))]
    for b in range(256):
        ops += ["text " + J([b]), "text " + J([b, 0x80]), "text " + J([0x41, b]), "text " + J([b] + [0x80] * 5), "text " + J([b] + [0xBF] * 6), "text " + J([0xE2, b, 0x80]), "text " + J([0xE2, 0x80, b]), "text %s" % J([b, 0, 0x80])]
        ops += ["text " + J([0xFC if b % 2 else 0xFE] + [0x84] * k + [b] + [0x84] * (4 - k)) for k in range(5)]
    lead = {2: (0xC0, 0xDF), 3: (0xE0, 0xEF), 4: (0xF0, 0xF7), 5: (0xF8, 0xFB), 6: (0xFC, 0xFF)}
    def seq():
        n = g.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
        if n == 1:
            return [g.choice([0x41, 0x7F, 1, 0])]
        s = [g.randint(*lead[n])] + [g.randint(0x80, 0xBF) for _ in range(n - 1)]
        x = g.random()
        if x < .15:
            s.pop(g.randrange(n))
        elif x < .3:
            s.append(g.randint(0x80, 0xBF))
        elif x < .4:
            s[g.randrange(n)] = g.choice([0x41, 0, 0xC3, 0xFF, 0xE2])
        return s
    for _ in range(c.n(3000, 60000)):
        ops.append("text " + J(sum((seq() for _ in range(g.randint(1, 6))), [])))
    # characters: all those of Unicode (a part, in quick), and the whole range around every limit
    for base in range(0, 0x110000, 64):
        if c.thorough or base < 0x3400 or base in range(0xD7C0, 0xE040) or base in range(0xFF80, 0x10080) or base > 0x10FF00 or g.random() < .08:
            ops.append("enc %d %d 64" % (base >> 16, base & 65535))
    for k in range(20, 33):
        for d in (-128, -64, 0, 64):
            b = ((1 << k) + d) & 0xFFFFFFFF
            ops.append("enc %d %d 64" % (b >> 16, b & 65535))
    for _ in range(c.n(600, 10000)):
        b = g.getrandbits(32) >> g.choice([0, 0, 1, 2, 5, 6, 8, 10]) & ~63
        ops.append("enc %d %d 64" % (b >> 16, b & 65535))
    for h in (0, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF):
        ops.append("ill %d %s" % (h, J(list(range(0, 260)) + [511, 512, 0x8000, 0xFF00, 0xFF80, 0xFFFE, 0xFFFF])))
    # UTF-16
    for base in list(range(0, 0xD800, 64)) + list(range(0xE000, 0x110000, 64)):
        if c.thorough or base < 0x100 or base in range(0xD780, 0xE080) or base in range(0xFF80, 0x10480) or base > 0x10FB00 or g.random() < .06:
            ops.append("enc16 %d %d 64 %d" % (base >> 16, base & 65535, g.randrange(2)))
    good16 = lambda: [g.choice([0, 0x41, 0xD7FF, 0xE000, 0xFFFF, g.randrange(0xD800)])] if g.random() < .5 else [g.choice([0xD800, 0xDBFF, g.randint(0xD800, 0xDBFF)]), g.choice([0xDC00, 0xDFFF, g.randint(0xDC00, 0xDFFF)])]
    for _ in range(c.n(300, 5000)):
        ops.append("text16 %s %d" % (J(sum((good16() for _ in range(g.randint(1, 5))), [])), g.randrange(2)))
    ops = [o for o in ops if o != "enc 65535 65472 64"] + ["enc 65535 65472 63", "enc 65535 65535 1"]     # the last is written as a byte
    g.shuffle(ops)
    sc = [("", ops[i:i + 60]) for i in range(0, len(ops), 60)]
    c.extra["cases"] = len(ops)
    for name, flags in (("codec_signed", ["-fsigned-char"]), ("codec_unsigned", ["-funsigned-char"])):
        drv = c.build(name, ["codec_drv.cpp"], flags=flags)
        c.conform(drv, "CodecTrace", sc if name == "codec_signed" or c.thorough else sc[::4])
    # ill-formed UTF-16 is refused by assertions; without them it has a defined reading too
    ops = []
    U = [0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000]
    for n in range(c.n(4, 6)):
        ops += ["text16 %s %d" % (J(v), g.randrange(2)) for v in itertools.product(U, repeat=n)]
    drv = c.build("codec_ndebug", ["codec_drv.cpp"], flags=["-DNDEBUG"])
    c.conform(drv, "CodecTrace", [("", ops[i:i + 60]) for i in range(0, len(ops), 60)])
    c.assumptions.append("ill-formed UTF-16 aborts by assertion in this build; its reading is checked in a build without assertions")


def tables():
    import os, re, vp
    s = open(os.path.join(vp.SPEC, "CharData.tla")).read()
    return {n: [tuple(map(int, m)) for m in re.findall(r"<<(-?\d+),(-?\d+),(-?\d+)>>", s[s.index(n + " =="):].split("\n>>")[0])] for n in ("UpTab", "LowTab", "TitleTab", "DigitTab")}


def run_c11(c):
    import os, vp
    c.model_check("CharMemo", minimum=10000)
    for switch in ("ReadOnce", "Own"):
        q = os.path.join(c.tmp, switch + ".cfg")
        open(q, "w").write(open(os.path.join(vp.SPEC, "CharMemo.cfg")).read().replace(switch + " = TRUE", switch + " = FALSE"))
        if "is violated" not in c.tlc("CharMemo", q, workers=vp.NCPU).out:
            raise vp.CheckError("CharMemo without %s is not rejected" % switch)
    c.extra["unsafe_designs_rejected_by_model"] = 2
    g = c.rng
    tab = tables()
    # which table a function searches
    of = {"up": "UpTab", "low": "LowTab", "title": "UpTab", "digit": "DigitTab", "hex": "DigitTab", "alpha": "LowTab", "decimal": "DigitTab", "alnum": "UpTab"}
    plain = ["white", "adigit", "ascii", "print", "latin", "uni", "u16"]
    ops = []
    # sweeps, up, down and in strides
    for f in list(of) + plain:
        for base in range(0, 0x11000 if f in of else 0x3100, 0x400):
            ops.append("run %s %d 1 %d" % (f, base, 0x400))
            if f in of and (c.thorough or g.random() < .3):
                ops.append("run %s %d -1 %d" % (f, base + 0x3FF, 0x400))
                ops.append("run %s %d %d 64" % (f, base, g.choice([3, 7, 16, 17, 257])))
        for b in [0x10000, 0x110000, 0x10FFFF, 0x7FFFFFFF, -0x80000000, 0xFFFF]:
            ops.append("run %s %d 1 %d" % (f, b - (40 if b > -0x80000000 else 0) , 41 if b == 0x7FFFFFFF else 80))
        ops.append("run %s -100 1 100" % f)     # 0xFFFFFF9C.. as unsigned
        ops.append("run %s %d 65536 300" % (f, g.choice([0x41, 0x61, 0x30, 0x100, 0x3B1])))
    # histories: every entry remembered, then its edges and those of others
    def near(t):
        r = g.choice(tab[t])
        return g.choice([r[0], r[1], r[0] - 1, r[1] + 1, (r[0] + r[1]) // 2])
    for f, t in of.items():
        for r in tab[t]:
            o = []
            for x in (r[0], r[1], (r[0] + r[1]) // 2):
                o += [(f, x), (f, r[0] - 1), (f, x), (f, r[1] + 1), (f, x), (f, r[0]), (f, r[1]), (f, x), (f, near(t)), (f, x), (g.choice(list(of)), near(t)), (f, x), (f, g.randrange(0x10000)), (f, x), (f, x + 0x10000)]
            ops.append("qs " + " ".join("%s %d" % x for x in o))
    special = [0x3007, 0x3020, 0x3021, 0x3029, 0x302A, 0x1C5, 0x1C8, 0x1CB, 0x1F2, 0x130, 0x131, 0x17F, 0xB5, 0xFF, 0x178, 0x1E9E, 0x2028, 0x2029, 0x200B, 0x200C, 0xAE6, 0x1368, 0]
    for _ in range(c.n(1200, 30000)):
        fs = g.sample(list(of) + plain, g.randint(1, 4))
        ops.append("qs " + " ".join("%s %d" % (f, g.choice([near(of.get(f, "UpTab")), near(of.get(f, "UpTab")), g.choice(special), g.randrange(0x3100), g.randrange(0x11000), g.getrandbits(32) - 2 ** 31])) for f in (g.choice(fs) for _ in range(40))))
    g.shuffle(ops)
    sc = [("", ops[i:i + 20]) for i in range(0, len(ops), 20)]
    c.extra["cases"] = len(ops)
    c.conform(c.build("chars_drv", ["chars_drv.cpp"], lib=True), "CharTrace", sc)
    # threads
    drv = c.build("chars_thr", ["chars_drv.cpp"], flags=["-DTHREADS"], lib=True, sched=True)
    th = ["up", "low", "title", "digit", "hex", "alpha"]
    sc = []
    for i in range(c.n(150, 2500)):
        f = g.choice(th)
        n = g.randint(2, 3)
        acts = []
        cs = [near(of[f]) for _ in range(3)]
        for a in range(n):
            acts.append("A %d %s" % (a, " ".join("%s %d" % (f if g.random() < .8 else g.choice(th), g.choice(cs + [near(of[f])])) for _ in range(g.randint(2, 4)))))
        sc.append((g.choice(["limit=%d bound=2" % c.n(60, 1000), "rand=1 limit=%d seed=%d" % (c.n(40, 200), g.randrange(10 ** 6))]), acts))
    c.conform(drv, "CharTrace", sc, label="sched")
