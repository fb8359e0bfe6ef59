"""C04: CowMap."""
NR = 4
VISITS = ["each", "all", "any", "one", "select", "map", "inject"]
CHANGES = ["put", "remove", "this", "same", "clear", "empty"]


def J(v):
    return ",".join(map(str, v)) or "-"


class Gen:
    def __init__(self, rng):
        self.g = rng

    def script(self, nops, obs):
        g = self.g
        kind = g.choice(["int", "str", "str", "strint", "var"])
        if kind == "int":
            keys = [[k] for k in g.choice([[1, 2, 3], [97, 98, 99, 5, -7, 2147483647, -2147483648, 0]])]
        else:
            keys = g.choice([[[], [97], [97, 98], [97, 98, 99], [98]], [[97], [0x20AC], [0x1F600, 97], [255], [97, 0x20AC], [0xFFFF], [0x10000]],
                             [[97, 0], [97], [0], [], [97, 0, 98]], [[97 + i] for i in range(12)]])
        ops = []
        sl = lambda: g.choice([0, 0, 1]) if kind != "int" else 0
        for _ in range(nops):
            r, s, k, v = g.randrange(NR), g.randrange(NR), g.choice(keys), g.randint(1, 12)
            x = g.random()
            if x < .25:
                ops.append("put %d %s %d %d" % (r, J(k), g.choice([sl(), sl(), 2]), v))
            elif x < .33:
                ops.append("insert %d %s %d %d" % (r, J(k), sl(), v))
            elif x < .44:
                ops.append("remove %d %s %d" % (r, J(k), g.choice([sl(), sl(), 2])))
            elif x < .47:
                ops.append("clear %d" % r)
            elif x < .60:
                ops.append("copy %d %d %s" % (r, s, g.choice(["ctor", "assign", "assign", "value"])))
            elif x < .65:
                n = g.randint(0, 5)
                ops.append("new %d %s %s" % (r, g.choice(["arr"] * 4 + ["empty"]) if n == 0 else "arr", " ".join("%s %d" % (J(g.choice(keys)), g.randint(1, 12)) for _ in range(n))))
            elif x < .70:
                ops.append("select %d %d %d" % (r, s, g.randrange(6)))
            elif x < .75:
                ops.append("map %d %d %d" % (r, s, g.randrange(3)))
            elif x < .79:
                ops.append("visit %d %d %s %d %s %s %d" % (r, g.choice([r, r, s]), g.choice(VISITS), g.randint(0, 2), g.choice(CHANGES), J(k), v))
            elif x < .93:
                o = g.choice(["get", "has", "find"])
                ops.append("%s %d %s %d" % (o, r, J(k), sl()))
            else:
                ops.append(g.choice(["size %d" % r, "keys %d" % r, "values %d" % r, "each %d" % r, "count %d %d" % (r, g.randrange(6)), "inject %d %d" % (r, v)]))
            if g.random() < obs:
                ops.append("obs")
        ops += ["obs"] + ["size %d" % r for r in range(NR)]
        return (kind, ops)


def systematic():
    """Every change to a map in every sharing situation, then everything is read."""
    out = []
    k1, k2, k3 = [97], [97, 98], [98]
    for kind in ("int", "str", "strint", "var"):
        ks = [[97], [98], [99]] if kind == "int" else [k1, k2, k3]
        J1, J2, J3 = map(J, ks)
        shapes = [["new 0 arr %s 3 %s 4" % (J1, J2)],
                  ["new 0 arr %s 3 %s 4" % (J1, J2), "copy 1 0 assign"],
                  ["new 1 arr %s 3 %s 4" % (J1, J2), "copy 0 1 ctor", "copy 2 0 value"],
                  ["new 0 arr %s 3" % J1, "copy 1 0 assign", "clear 0", "copy 0 1 assign", "clear 1"],
                  [], ["new 0 arr"], ["new 0 empty"], ["new 0 arr %s 2 %s 7 %s 9 %s 1" % (J2, J1, J2, J3)]]
        muts = []
        for k in (J1, J2, J3):
            for sl in (0, 2) + (() if kind == "int" else (1,)):
                muts += ["put 0 %s %d 9" % (k, sl), "remove 0 %s %d" % (k, sl)]
            muts += ["insert 0 %s 0 9" % k]
        muts += ["clear 0", "copy 0 0 assign", "copy 0 0 ctor", "copy 0 3 assign"] + ["select 0 0 %d" % p for p in range(6)] + ["select 2 0 2"] + ["map 0 0 %d" % f for f in range(3)] + ["map 2 0 1"]
        for how in VISITS:
            for what in CHANGES:
                for k in (J1, J3):
                    if k == J1 or what in ("put", "remove"):
                        muts += ["visit 0 0 %s %d %s %s 9" % (how, at, what, k) for at in (0, 1)] + ["visit 0 1 %s 0 %s %s 9" % (how, what, k)]
        for sh in shapes:
            for m in muts:
                q = []
                for r in (0, 1):
                    for k in (J1, J2, J3):
                        q += ["get %d %s 0" % (r, k), "has %d %s 0" % (r, k), "find %d %s 0" % (r, k)]
                    q += ["size %d" % r, "keys %d" % r, "values %d" % r, "each %d" % r, "inject %d 2" % r] + ["count %d %d" % (r, p) for p in range(6)]
                out.append((kind, sh + [m, "obs"] + q + ["put 1 %s 0 11" % J3, "put 0 %s 0 12" % J1, "obs"]))
    return out


def large(g, n):
    """Maps of many entries: as many as the library's own containers would need to grow, copy and rebalance for."""
    out = []
    for i in range(n):
        kind = ["int", "str", "strint", "var"][i % 4]
        m = g.choice([40, 70, 130, 260]) if i % 8 == 0 else g.choice([33, 40, 66])
        if kind == "int":
            keys = [[k] for k in g.sample(range(-500, 500), m - 2)] + [[2147483647], [-2147483648]]
        else:
            al = g.choice([[97, 98, 99, 48], [0x4E00, 97, 0x1F600, 0x20AC]])
            ks = set()
            while len(ks) < m:
                ks.add(tuple(g.choice(al) for _ in range(g.choice([3, 5, 5, 9]))))
            keys = [list(k) for k in ks]
        order = g.choice(["up", "down", "mix"])
        if order != "mix":
            keys.sort(reverse=order == "down")
        half = len(keys) if g.random() < .5 else len(keys) // 2
        ops = ["new 0 arr " + " ".join("%s %d" % (J(k), g.randint(1, 12)) for k in keys[:half])]
        at = sorted(g.sample(range(half, len(keys)), 1)) if half < len(keys) else []
        for j, k in enumerate(keys[half:], half):
            ops.append("%s 0 %s 0 %d" % (g.choice(["put", "put", "insert"]), J(k), g.randint(1, 12)))
            if j in at:
                ops.append("copy 3 0 assign")
        ops += ["obs", "copy 1 0 " + g.choice(["ctor", "assign"])]
        for k in g.sample(keys, 6):
            ops += [g.choice(["put 0 %s 2 9", "put 1 %s 0 9", "remove 0 %s 0", "remove 1 %s 0"]) % J(k), "get 0 %s 0" % J(k), "has 1 %s 0" % J(k)]
        ops += ["obs", "select 2 0 %d" % g.randrange(6), "map 2 1 %d" % g.randrange(3), "visit 0 0 %s 0 %s %s 9" % (g.choice(VISITS), g.choice(CHANGES), J(keys[0])), "obs"]
        for k in keys[:len(keys) - g.choice([0, 1, 5])]:
            if g.random() < .8:
                ops.append("remove 1 %s 0" % J(k))
        ops += ["obs"] + ["size %d" % r for r in range(NR)] + ["keys 1", "values 1", "count 1 1", "inject 0 2"]
        out.append((kind, ops))
    return out


def replay(beh, rng):
    out = []
    for h in beh:
        kind = rng.choice(["int", "str", "strint", "var"])
        km = {1: [97], 2: rng.choice([[98], [96]])} if kind == "int" else {1: [97], 2: rng.choice([[97, 98], [], [0x20AC]])}
        ops = []
        for o in h:
            if o[0] == "clear":
                ops.append("clear %d" % o[1])
            elif o[0] == "copy":
                ops.append("copy %d %d %s" % (o[1], o[2], rng.choice(["assign", "ctor"])))
            elif o[0] in ("put", "insert"):
                ops.append("%s %d %s %d %d" % (o[0], o[1], J(km[o[2]]), rng.choice([0, 2]) if o[0] == "put" else 0, o[3]))
            else:
                ops.append("remove %d %s 0" % (o[1], J(km[o[2]])))
        out.append((kind, ops + ["obs"]))
    return out


def run(c):
    t = c.model_check("MapCow", workers=1, minimum=100)
    beh = c.behaviours(t, c.n(1500, 20000))
    if c.thorough:
        c.model_check("MapCow", "MapCowBig.cfg", minimum=10000)
    drv = c.build("map_drv", ["map_drv.cpp"], lib=True)
    sc = systematic()
    ns = len(sc)
    sc += replay(beh, c.rng)
    g = Gen(c.rng)
    big = large(c.rng, c.n(24, 240))
    sc += big
    nr = c.n(1200, 15000)
    sc += [g.script(c.rng.choice([10, 25, 50]), c.rng.choice([.1, .4, 1])) for _ in range(nr)]
    c.rng.shuffle(sc)
    c.extra.update(systematic_scenarios=ns, model_behaviours_replayed=len(beh), random_scenarios=nr, scenarios_with_maps_of_33_to_260_entries=len(big))
    c.conform(drv, "MapTrace", sc)
