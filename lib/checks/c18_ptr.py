"""C18: guarded pointers."""
import itertools
import vp

KINDS = ["U", "N", "G", "NU", "GU"]
ALPHA = [0x41, 0x80, 0xC0, 0xC3, 0xE2, 0xF0, 0xFD]
LEAD = {2: (0xC0, 0xDF), 3: (0xE0, 0xEF), 4: (0xF0, 0xF7), 5: (0xF8, 0xFB), 6: (0xFC, 0xFF)}


def J(v):
    return ",".join(map(str, v)) or "-"


def text(g, n):
    out = []
    for _ in range(n):
        k = g.choice([1, 1, 2, 2, 3, 4, 5, 6])
        s = [g.choice([0x41, 0x7F, 1])] if k == 1 else [g.randint(*LEAD[k])] + [g.randint(0x80, 0xBF) for _ in range(k - 1)]
        x = g.random()
        if x < .1:
            s.pop(g.randrange(len(s)))
        elif x < .2:
            s.append(g.randint(0x80, 0xBF))
        elif x < .27:
            s = [0xC0, 0x80]
        elif x < .32:
            s = [0xE0, 0x80, 0x80]
        out += s
    return out


def systematic(c):
    """every text, origin and place: every move from there"""
    sc = []
    top = c.n(3, 4)
    for k in KINDS:
        pre = [0x42] * (0 if k in ("U", "G", "GU") else 12)
        for n in range(top + 1):
            texts = list(itertools.product(ALPHA if k in ("NU", "GU") else [0x41, 0xC3], repeat=n))
            if len(texts) > 400 and not c.thorough:
                texts = c.rng.sample(texts, 250)
            for t in texts:
                s = pre + list(t)
                ops = ["conf %s %s" % (k, J(s))]
                for o in range(len(pre), len(s) + 1):
                    ops.append("new 0 %d" % o)
                    ops.append("len 0")
                    for d in range(0, n + 1):
                        for i in range(-n - 2, n + 3):
                            ops += ["cp 1 0", "add 1 %d" % d, "len 1"] if d else ["cp 1 0"]
                            ops.append(c.rng.choice(["add 1 %d" % i, "sub 1 %d" % -i, "off 2 1 %d" % i, "offs 2 1 %d" % -i]))
                            if i in (-1, 1):
                                ops += ["cp 1 0", "add 1 %d" % d, "pre 1 %d" % i, "cp 1 0", "add 1 %d" % d, "post 1 %d" % i, "cp 1 0", "add 1 %d" % d, "old 2 1 %d" % i, "diff 1 2"]
                sc.append(("", ops))
    return sc


def random_scripts(c, n):
    g, sc = c.rng, []
    for _ in range(n):
        ops = []
        for _ in range(4):
            k = g.choice(KINDS)
            s = text(g, g.randint(0, 12))
            ops.append("conf %s %s" % (k, J(s)))
            at = lambda: g.choice([0, len(s), g.randint(0, len(s))])
            ops += ["new %d %d" % (r, at()) for r in range(3)]
            for _ in range(g.randint(10, 40)):
                r, q = g.randrange(3), g.randrange(3)
                i = g.choice([0, 1, -1, 2, -2, 3, -3, g.randint(-20, 20), g.choice([100, -100, 65536, -65536, 2147483647, -2147483647] + ([-2147483648] if k in ("G", "GU") else []))])
                o = g.choice(["new", "cp", "as", "add", "add", "sub", "pre", "pre", "post", "post", "off", "offs", "old", "diff", "len"])
                if i == -2147483648 and o in ("sub", "offs"):
                    i += 1
                j = g.choice([1, -1])
                ops.append({"new": "new %d %d" % (r, at()), "cp": "cp %d %d" % (r, q), "as": "as %d %d" % (r, q), "add": "add %d %d" % (r, i), "sub": "sub %d %d" % (r, i), "pre": "pre %d %d" % (r, j), "post": "post %d %d" % (r, j),
                            "off": "off %d %d %d" % (r, q, i), "offs": "offs %d %d %d" % (r, q, i), "old": "old %d %d %d" % (r, q, j), "diff": "diff %d %d" % (r, q), "len": "len %d" % r}[o])
            ops += ["diff %d %d" % (r, q) for r in range(3) for q in range(3)]
        sc.append(("", ops))
    return sc


def large(c, n):
    """Long texts, and moves across much of them"""
    g, sc = c.rng, []
    for i in range(n):
        k = KINDS[i % len(KINDS)]
        s = text(g, g.choice([60, 130, 260])) if g.random() < .6 else [g.choice([0x80, 0xC3, 0x41])] * g.choice([130, 260, 300])
        ops = ["conf %s %s" % (k, J(s)), "new 0 %d" % g.choice([0, len(s)]), "new 1 %d" % g.randint(0, len(s))]
        for _ in range(12):
            d = g.choice([40, 63, 64, 127, 128, 129, 200, 255, 256, 257, g.randint(1, len(s)), len(s)]) * g.choice([1, -1])
            ops.append(g.choice(["add 0 %d", "sub 0 %d", "off 1 0 %d", "offs 1 0 %d", "add 1 %d"]) % d)
            ops += [g.choice(["len 0", "diff 0 1", "diff 1 0", "pre 0 1", "pre 0 -1", "post 1 -1", "as 0 1"])]
        sc.append(("", ops))
    return sc


def replay(c):
    t = c.tlc("PtrModel", "PtrModelRec.cfg", workers=vp.NCPU, extra=["-simulate", "num=%d" % c.n(3000, 40000), "-depth", "12", "-seed", str(c.seed)], timeout=300)
    sc = []
    for k, s, org, hist in c.behaviours(t):
        sc.append(("", ["conf %s %s" % (KINDS[k], J(s)), "new 0 %d" % org] + [("%s 0 %d" % (c.rng.choice(["pre", "post"]) if how else "add", i)) for how, i in hist]))
    return sc


def run(c):
    c.model_check("PtrModel", "PtrModelBig.cfg" if c.thorough else None, minimum=10000)
    drv = c.build("ptr", ["ptr_drv.cpp"])
    c.conform(drv, "PtrTrace", replay(c), label="model")
    c.conform(drv, "PtrTrace", systematic(c), label="systematic")
    c.conform(drv, "PtrTrace", random_scripts(c, c.n(1500, 20000)) + large(c, c.n(60, 600)), label="random")
    c.conform(c.build("ptr_u", ["ptr_drv.cpp"], flags=["-funsigned-char"]), "PtrTrace", random_scripts(c, c.n(300, 4000)), label="unsigned")
    c.assumptions.append("moves of an unguarded pointer outside its text, and moves before the text of pointers not guarded there, are left to the caller")
