"""C22: joining and formatting."""
import itertools


def J(v):
    return ",".join(map(str, v)) or "-"


def run(c):
    c.model_check("FmtModel", minimum=5000)
    drv = c.build("fmt_drv", ["fmt_drv.cpp"], lib=True)
    g = c.rng
    O = lambda s: [ord(x) for x in s]
    ops = []
    texts = [[], [97], O("ab"), [233], [0x20AC, 0x1F600], O("a%s"), [37], O("hello world"), [0x1F600] * 9, O("x" * 40), [97, 0, 98]]
    hows = ["whole", "slice", "block", "roomy", "shift"]
    for n in range(0, 4):
        for el in itertools.product(texts[:5], repeat=n):
            for j in ([], [44], [0x20AC, 32]):
                ops.append("join %s %s %s" % (J(j), g.choice(hows), " ".join(map(J, el))))
    for _ in range(c.n(800, 10000)):
        ops.append("join %s %s %s" % (J(g.choice(texts)), g.choice(hows), " ".join(J(g.choice(texts)) for _ in range(g.randint(0, 9)))))
    plain = [t for t in texts if 0 not in t]
    for n in range(0, 6):
        for _ in range(c.n(30, 300)):
            ops.append("join %s bytes %s" % (J(g.choice(texts)), " ".join(J(g.choice(plain)) for _ in range(n))))
    for n in range(1, 8):
        for what in ("last", "pull", "delete", "elem"):
            for k in range(n):
                for how in hows + ["bytes"]:
                    ops.append("take %s %d %s %s" % (what, k, how, " ".join(J(g.choice(plain)) for _ in range(n))))
    specs = ["%s", "%d", "%f", "%g", "%%", "%1$s", "%2$d", "%3$s", "%9$s", "%*d", "%5s", "%-"[:1] + "05d", "%5.2s", "%.3d", "%*.*s", "%.*d", "%1$*d", "%2$05.1s", "%10d", "%1$%", "%.12d", "%12.345s"]
    lits = ["", "a", " ", "é€", "😀", "$", "1$", "*", ".", "s", "d", "0", "literal text "]
    ints = ["0", "7", "-1", "2147483647", "-2147483648", "12345"]
    longs = ints + ["9223372036854775807", "-9223372036854775808", "4294967296"]

    def arg():
        x = g.random()
        if x < .35: return "i:" + g.choice(ints)
        if x < .45: return "l:" + g.choice(longs)
        if x < .5: return "L:" + g.choice(longs)
        if x < .95: return "s:" + J(g.choice([[], [97], O("param1"), [233, 0x20AC], [0x1F600 - 0x1F600 + 0xFFFF], O("%s"), O("100%"), O("long enough to need its own allocation")]))
        return "a:-"
    args_sets = [["i:7", "s:97,98"], ["s:233", "i:-1"], [], ["i:1", "i:2", "i:3", "i:4"], ["s:-"], ["l:9223372036854775807", "s:37,115", "L:-5"]]
    for n in (1, 2):
        for sp in itertools.product(specs, repeat=n):
            for a in args_sets:
                f = g.choice(lits) + g.choice(lits).join(sp) + g.choice(lits + ["%"])
                ops.append("format %s %s %s" % (J(O(f)), g.choice(["whole", "slice", "chain"]), " ".join(a)))
    for _ in range(c.n(2500, 40000)):
        f = ""
        for _ in range(g.randint(0, 6)):
            f += g.choice(lits) if g.random() < .4 else g.choice(specs)
        f += g.choice(lits + ["%"])
        ops.append("format %s %s %s" % (J(O(f)), g.choice(["whole", "slice", "chain"]), " ".join(arg() for _ in range(g.choice([0, 1, 2, 3, 4, 6, 10, 12])))))
    # many parts, long parts and long results
    for _ in range(c.n(60, 900)):
        n = g.choice([10, 16, 17, 33, 40, 65, 130])
        el = [g.choice([[97], [], O("ab"), [0x20AC], O("hello world")]) for _ in range(n)]
        ops.append("join %s %s %s" % (J(g.choice([[], [44], [0x20AC, 32], O("x" * 70)])), g.choice(hows), " ".join(map(J, el))))
        el = [g.choice([O("y" * 100), [0x20AC] * 130, O("z" * 33), [97]]) for _ in range(g.choice([2, 3, 5]))]
        ops.append("join %s %s %s" % (J(g.choice([[], [44], O("-" * 140)])), g.choice(hows), " ".join(map(J, el))))
        f, m = g.choice([[], O("lit" * 90), [0x1F600] * 70]), g.choice([8, 9, 10, 17, 33])
        for _ in range(m):
            f = f + O(g.choice(specs[:13] + ["%s", "%s"])) + g.choice([[], [32], O("lit" * 30), [0x20AC] * 60])
        ops.append("format %s %s %s" % (J(f), g.choice(["whole", "slice", "chain"]), " ".join(g.choice([arg(), "s:" + J([g.choice([97, 0x20AC])] * g.choice([50, 130]))]) for _ in range(g.choice([m - 1, m, m + 1])))))
    g.shuffle(ops)
    sc = [("", ops[i:i + 20]) for i in range(0, len(ops), 20)]
    c.extra["cases"] = len(ops)
    c.conform(drv, "FmtTrace", sc)
