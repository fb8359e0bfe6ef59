"""C19: error numbers and errors."""


def run(c):
    c.model_check("ErrModel", minimum=1000)
    drv = c.build("err_drv", ["err_drv.cpp"])
    g = c.rng
    edge = sorted(set([0, 65535] + [2 ** k for k in range(16)] + [2 ** k - 1 for k in range(1, 17)] + [0x5555, 0xAAAA, 0x3000, 0xC000]))
    medge = [m for m in edge if m < 16384]
    sc = []
    J = lambda v: ",".join(map(str, v))
    for s in (range(65536) if c.thorough else edge + [g.randrange(65536) for _ in range(600)]):
        sc.append(("", ["num %d %s" % (s, J(medge + [g.randrange(16384) for _ in range(10)]))]))
    for s in [0, 1, 65535, 8192, g.randrange(65536)]:
        sc.append(("", ["num %d %s" % (s, J(range(i, i + 1024))) for i in range(0, 16384, 1024)]))
    cm = []
    for _ in range(c.n(2000, 30000)):
        s, m = g.choice(edge), g.choice(medge)
        x = g.random()
        s2, m2 = (s, m) if x < .2 else (s ^ (1 << g.randrange(16)), m) if x < .5 else (s, m ^ (1 << g.randrange(14))) if x < .8 else (g.choice(edge), g.choice(medge))
        cm.append("cmp %d %d %d %d" % (s, m, s2, m2))
    sc += [("", ["zero"] + cm[i:i + 50]) for i in range(0, len(cm), 50)]
    for _ in range(c.n(300, 5000)):
        ops = []
        for _ in range(20):
            r, s = g.randrange(3), g.randrange(3)
            x = g.random()
            ops.append("new %d %d %d %d %d" % (r, g.choice(edge), g.choice(medge), g.randrange(4), g.randrange(4)) if x < .35 else
                       "copy %d %d %s" % (r, s, g.choice(["ctor", "assign"])) if x < .85 else "drop %d" % r)
            ops.append("obs")
        sc.append(("", ops))
    c.conform(drv, "ErrTrace", sc)
