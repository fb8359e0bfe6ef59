"""C23: parsing sources."""
import itertools
import vp
from checks.c18_ptr import J, text

KINDS = ["default", "bytes", "nulutf8", "nulbytes", "mem"]


def replay(c):
    t = c.tlc("SourceModel", "SourceModelRec.cfg", workers=vp.NCPU, extra=["-simulate", "num=%d" % c.n(2000, 30000), "-depth", "12", "-seed", str(c.seed)], timeout=300)
    sc = []
    for s, hist in c.behaviours(t):
        ops = ["conf %s %s" % (c.rng.choice(KINDS), J(s)), "new 0 0", "null 1"]
        for op, i, j in hist:
            ops.append("byte %d" % i if op == 0 else "char %d" % i if op == 1 else "%s %d %d" % (c.rng.choice(["cp", "as"]), i, j))
        sc.append(("", ops + ["cmp 0 1", "cmp 1 0"]))
    return sc


def systematic(c):
    sc = []
    A = [0x41, 0x0A, 0x0D, 0x80, 0xC0, 0xC3, 0x8A, 0xE2, 0xFF]
    for k in KINDS:
        for n in range(c.n(3, 4) + 1):
            T = list(itertools.product(A, repeat=n))
            for s in T if len(T) < 100 or c.thorough else c.rng.sample(T, 80):
                ops = ["conf %s %s" % (k, J(s)), "new 0 0"]
                for i in range(n + 1):      # to here by characters, then every way on
                    ops += ["cp 1 0", "byte 1", "char 1", "as 2 0", "char 2", "cmp 0 2", "cmp 2 1", "cmp 1 1", "byte 2", "new 3 %d" % i, "cmp 3 0", "char 3", "byte 3", "char 0"]
                sc.append(("", ops + ["char 0", "byte 0", "null 1", "cmp 1 1", "cmp 0 1", "byte 1", "char 1", "cp 2 1"]))
    return sc


def lines(g):
    s = text(g, g.randint(0, 10))
    for _ in range(g.randint(0, 6)):
        s[g.randint(0, len(s)):0] = g.choice([[0x0A], [0x0A, 0x0A], [0x0D, 0x0A], [0xC0, 0x8A], [0x8A], [0x0C]])
    return s


def random_scripts(c, n):
    g, sc = c.rng, []
    for _ in range(n):
        ops = []
        for _ in range(3):
            s = lines(g)
            ops += ["conf %s %s" % (g.choice(KINDS), J(s)), "new 0 0", "new 1 %d" % g.randint(0, len(s))]
            for _ in range(g.randint(10, 50)):
                r, q = g.randrange(4), g.randrange(4)
                o = g.choice(["byte", "char", "char", "char", "char", "cp", "as", "cmp", "cmp", "new", "null"] if g.random() < .5 else ["char"])
                ops.append({"new": "new %d %d" % (r, g.randint(0, len(s))), "cp": "cp %d %d" % (r, q), "as": "as %d %d" % (r, q), "cmp": "cmp %d %d" % (r, q)}.get(o, "%s %d" % (o, r)))
                if o in ("byte", "char") and g.random() < .3:
                    ops.append(ops[-1])
        sc.append(("", ops))
    return sc


def long_text(c):
    g = c.rng
    s = sum((g.choice([[0x41], [0xC3, 0xA9], [0xE2, 0x82, 0xAC], [0xF0, 0x9F, 0x98, 0x80], [0x0A]]) for _ in range(400)), [])
    return [("", ["conf %s %s" % (k, J(s)), "new 0 0"] + sum((["char 0"] + (["cp 1 0", "char 1", "char 1", "cmp 0 1"] if i % 7 == 0 else []) for i in range(len(s) + 2 if "bytes" in k else 402)), [])) for k in KINDS]


def very_long(c, full):
    """More lines, and longer ones, than a byte or two would count"""
    g, sc = c.rng, []
    for k, n in [(k, g.randint(257, 700)) for k in KINDS] * 2 + ([(k, 65540 + i) for i, k in enumerate(KINDS)] if full else [(g.choice(KINDS[:1] + KINDS[4:]), 65537)]):
        for fill in ([0x0A], [0x41], [0x41] * 300 + [0x0A], [0x0A] * 300 + [0x41]):
            s = (fill * (n // len(fill) + 1))[:n] + [0x42, 0xC3, 0xA9, 0x0A, 0x43]
            m = [n // 3, n // 3, n - 2 * (n // 3) - 1]
            ops = ["conf %s %s" % (k, J(s)), "new 0 0"]
            for i in m:
                ops += ["skip 0 %d" % i, "cp 1 0", "char 1", "cmp 0 1"]
            sc.append(("", ops + ["char 0", "byte 0", "cp 2 0", "char 0", "char 0", "char 0", "char 0", "char 0", "cmp 2 0", "cmp 0 2"]))
    return sc


def run(c):
    c.model_check("SourceModel", "SourceModelBig.cfg" if c.thorough else None, minimum=10000)
    drv = c.build("source", ["source_drv.cpp"], lib=True)
    c.conform(drv, "SourceTrace", replay(c), label="model")
    c.conform(drv, "SourceTrace", systematic(c), label="systematic")
    c.conform(drv, "SourceTrace", random_scripts(c, c.n(1200, 20000)) + long_text(c) + very_long(c, c.thorough), label="random")
