"""C06 (Variant) and C07 (JSON)."""
NR = 4


def J(v):
    return ",".join(map(str, v)) or "-"


STRS = [[], [48], [55], [45, 55], [49, 50, 51], [32, 52, 50, 32], [48, 120, 49, 70], [48, 55, 55], [97], [97, 98, 99], [0x20AC], [0x1F600, 65], [49, 97], [45],
        [50, 49, 52, 55, 52, 56, 51, 54, 52, 55], [50, 49, 52, 55, 52, 56, 51, 54, 52, 56], [45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56], [45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 57],
        [52, 50, 57, 52, 57, 54, 55, 50, 57, 54], [57] * 25, [48, 98, 49, 48, 49], [43, 53], [32], [53, 32, 120], [0x661, 0x662], [34, 92, 10]]
N32 = [0, 1, -1, 7, 42, -42, 99, 2147483647, -2147483648, 1000000]
N64 = N32 + [2147483648, -2147483649, 4294967296, 9223372036854775807, -9223372036854775808, 4294967295, 1 << 40, -(1 << 33) + 5]
TYPES = ["None", "Integer", "Long", "LongLong", "String", "StrArray", "VarArray", "StrVarMap"]
KEYS = [[], [97], [97, 98], [98], [0x20AC], [0x1F600], [34], [90]]
JCH = [0, 1, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 39, 47, 92, 97, 117, 127, 128, 159, 255, 256, 0x7FF, 0x800, 0x2028, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF]


class Gen:
    def __init__(self, rng, chars=None):
        self.g, self.chars = rng, chars

    def text(self):
        g = self.g
        if self.chars and g.random() < .6:
            return [g.choice(self.chars) for _ in range(g.randint(0, 6))]
        return g.choice(STRS)

    def new(self, r, t=None):
        g = self.g
        t = t or g.choice(["None", "Integer", "Long", "LongLong", "String", "String", "String", "StrArray"])
        if t == "None":
            return "new %d None" % r
        if t == "Integer":
            return "new %d Integer %d" % (r, g.choice(N32))
        if t in ("Long", "LongLong"):
            return "new %d %s %d" % (r, t, g.choice(N64))
        if t == "String":
            x = self.text()
            return "new %d String %s %s" % (r, J(x), g.choice(["whole", "slice", "z"] if 0 not in x else ["whole", "slice"]))
        return "new %d StrArray %s %s" % (r, g.choice(["whole", "slice", "ptr"]), " ".join(J(self.text()) for _ in range(g.randint(0, 4))))

    def script(self, nops, obs, json=0.0):
        """Random history; keeps its own idea of types and sizes so that only legal calls are made."""
        g = self.g
        ty = ["None"] * NR     # type, or None when not known
        size = [1] * NR        # how big the value is
        cnt = [0] * NR         # number of elements
        kids = [[] for _ in range(NR)]
        ops = []

        def setr(r, t, sz, n, k=()):
            ty[r], size[r], cnt[r], kids[r] = t, sz, n, list(k)
        for _ in range(nops):
            r, s, u = g.randrange(NR), g.randrange(NR), g.randrange(NR)
            x = g.random()
            if x < .22:
                o = self.new(r)
                ops.append(o)
                w = o.split()
                n = len(w) - 4 if w[2] == "StrArray" else 0
                setr(r, w[2], 1 + n, n, [("String", 1, 0, ())] * n)
            elif x < .25:
                t = g.choice(TYPES)
                ops.append("newtype %d %s" % (r, t))
                setr(r, t, 1, 0)
            elif x < .40:
                ops.append("copy %d %d %s" % (r, s, g.choice(["ctor", "assign", "assign", "value"])))
                setr(r, ty[s], size[s], cnt[s], kids[s])
            elif x < .46:
                if size[s] + size[u] > 40:
                    continue
                ops.append("pair %d %d %d" % (r, s, u))
                k = [(ty[s], size[s], cnt[s], kids[s]), (ty[u], size[u], cnt[u], kids[u])]
                setr(r, "VarArray", 1 + size[s] + size[u], 2, k)
            elif x < .52:
                ss = [g.randrange(NR) for _ in range(g.randint(0, 4))]
                if sum(size[i] for i in ss) > 40:
                    continue
                ops.append("array %d %s %s" % (r, g.choice(["plain", "ptr", "shift"]), " ".join(map(str, ss))))
                k = [(ty[i], size[i], cnt[i], kids[i]) for i in ss]
                setr(r, "VarArray", 1 + sum(size[i] for i in ss), len(ss), k)
            elif x < .58:
                ks = [(g.choice(KEYS), g.randrange(NR)) for _ in range(g.randint(0, 4))]
                if sum(size[i] for _, i in ks) > 40:
                    continue
                ops.append("map %d %s %s" % (r, g.choice(["ptr", "obj"]), " ".join("%s %d" % (J(k), i) for k, i in ks)))
                d = {}
                for k, i in ks:
                    d.setdefault(tuple(k), (ty[i], size[i], cnt[i], kids[i]))
                kk = [d[k] for k in sorted(d)]
                setr(r, "StrVarMap", 1 + sum(k[1] for k in kk), len(kk), kk)
            elif x < .63 and ty[r] == "VarArray" and size[r] + size[s] < 50:
                ops.append("append %d %d" % (r, s))
                setr(r, "VarArray", size[r] + size[s], cnt[r] + 1, kids[r] + [(ty[s], size[s], cnt[s], kids[s])])
            elif x < .66 and ty[r] == "StrVarMap" and size[r] + size[s] < 50:
                # the order of the kids is no longer known
                ops.append("putin %d %s %d" % (r, J(g.choice(KEYS)), s))
                setr(r, "StrVarMap", size[r] + size[s], 0)
            elif x < .73 and cnt[s]:
                i = g.randrange(cnt[s])
                ops.append("elem %d %d %d" % (r, s, i))
                setr(r, *kids[s][i])
            elif x < .88:
                t = g.choice(TYPES[1:4] * 3 + ["String"] * 3 + TYPES[5:])
                if g.random() < .25:
                    ops.append("asconst %d %s" % (r, t))
                else:
                    ops.append("as %d %s" % (r, t))
                    if t in TYPES[1:5] and ty[r] in TYPES[1:5] + ["?"]:
                        setr(r, "?", 1, 0)
            elif x < .91 and ty[r] in TYPES[1:5] + ["?"]:
                t = g.choice(TYPES[1:4])
                ops.append("setnum %d %s %d" % (r, t, g.choice(N32 if t == "Integer" else N64)))
                setr(r, "?", 1, 0)
            elif x < .95:
                ops.append("scribble %d" % r)
            else:
                ops.append("type %d" % r)
            if json and g.random() < json:
                q = g.randrange(NR)
                ops.append("json %d %d%s" % (q, g.choice([-2, -1, 0, 1, 2, 5]), "") if g.random() < .8 else "json %d -1 default" % q)
            if g.random() < obs:
                ops.append("obs")
        ops += ["obs"] + ["type %d" % r for r in range(NR)]
        return ("", ops)


def large(g, n, json):
    """Values of many elements, values nested deeply, and long strings."""
    out = []
    for i in range(n):
        # a little of everything to hold
        ops = ["new 1 %s" % g.choice(["Integer -7", "LongLong 99999999999", "None", "String 55 whole"]), "new 2 String %s %s" % (J([g.choice(JCH[1:] if json else [97, 0x20AC, 48, 0x1F600]) for _ in range(g.choice([3, 40, 300]))]), g.choice(["whole", "slice"]))]
        k = i % 5
        m = g.choice([12, 17, 33, 40, 70])
        if k == 0:
            ops += ["array 0 %s %s" % (g.choice(["plain", "ptr", "shift"]), " ".join(g.choice("12" if j % 7 == 0 else "1") for j in range(m))), "copy 3 0 assign", "append 0 1", "append 3 2", "elem 1 0 %d" % g.randrange(m), "append 0 0"]
        elif k == 1:
            ks = [[97 + j // 26, 97 + j % 26] for j in range(m)]
            g.shuffle(ks)
            ops += ["map 0 %s %s" % (g.choice(["ptr", "obj"]), " ".join("%s %s" % (J(x), g.choice("12" if j % 7 == 0 else "1")) for j, x in enumerate(ks))), "copy 3 0 assign", "putin 0 122,122,122 1", "putin 3 97,97 2", "putin 0 - 1"]
        elif k == 2:
            ops += ["new 0 StrArray %s %s" % (g.choice(["whole", "slice", "ptr"]), " ".join(J([g.choice([97, 0x20AC, 48, 34])] * (j % 4)) for j in range(m))), "copy 3 0 ctor", "array 3 plain 3 0"]
        elif k == 3:
            ops += ["array 0 plain 1"]
            for j in range(g.choice([8, 12, 17, 24])):
                ops.append(g.choice(["array 0 plain 0", "array 0 ptr 0", "map 0 ptr 97 0", "map 0 obj 34 0", "array 0 plain 1 0"]))
            ops += ["copy 3 0 assign", "elem 1 0 0", "pair 0 1 3"]
        else:
            t = [g.choice([49, 50, 57]) for _ in range(g.choice([20, 60, 300]))]
            t = [32] * g.choice([0, 1, 40]) + g.choice([[], [45]]) + [48] * g.choice([0, 30, 300]) + t[:g.choice([1, 5, 9, 19, 300])]
            ops += ["new 0 String %s %s" % (J(t), g.choice(["whole", "slice"])), "copy 3 0 assign", "pair 1 0 3"]
        if json:
            for q in (0, 3):
                ops += ["json %d %d" % (q, x) for x in g.sample([-2, -1, 0, 1, 2, 5, 9, 16, 33], 3)] + ["json %d -1 default" % q]
        ops.append("obs")
        for t in g.sample(TYPES[1:], 3):
            ops += [g.choice(["as 0 " + t, "asconst 0 " + t]), "obs"]
        ops += ["scribble %d" % g.choice([0, 3]), "obs", "new 0 None", "obs", "type 3", "new 3 None", "obs"]
        out.append(("", ops))
    return out


def systematic06():
    """Every value of every type, held alone and shared, assigned over and accessed as every type."""
    out = []
    vals = ["new 0 None"] + ["new 0 Integer %d" % n for n in N32] + ["new 0 Long %d" % n for n in N64] + ["new 0 LongLong %d" % n for n in N64]
    vals += ["new 0 String %s %s" % (J(s), h) for s in STRS for h in ("whole", "slice", "z")]
    vals += ["new 0 StrArray whole", "new 0 StrArray slice 97 - 8364,97", "new 0 StrArray ptr 97 98"]
    vals += ["newtype 0 %s" % t for t in TYPES]
    comp = [["new 1 Integer 5", "new 2 String 97,98 whole", k] for k in ("pair 0 1 2", "array 0 plain 1 2 1", "array 0 ptr 1 2", "array 0 shift 2 1", "array 0 plain", "map 0 ptr 97 1 98 2", "map 0 obj 98 1 97 2 98 2", "map 0 ptr")]
    for pre in [[v] for v in vals] + comp:
        for t in TYPES[1:]:
            out.append(("", pre + ["type 0", "copy 3 0 assign", "asconst 0 " + t, "obs", "as 0 " + t, "obs", "type 0", "as 0 " + t, "as 0 String", "as 0 LongLong", "obs", "as 3 Integer", "obs"]))
    small = ["new %d None", "new %d Integer -3", "new %d LongLong 99999999999", "new %d String 97,98 whole", "new %d String 55 slice", "new %d StrArray whole 97 98", "newtype %d VarArray", "newtype %d StrVarMap"]
    nest = [["new 2 String 120 whole"] + k for k in (["pair 0 2 2"], ["map 0 ptr 97 2"], ["pair 0 2 2", "pair 0 0 0", "map 0 obj 98 0 97 2"])]
    first = [[v % 0] for v in small] + nest
    for a in first:
        for b in [[v % 1] for v in small] + [[o.replace(" 0", " 1", 1) for o in n] for n in (["array 1 plain"], ["pair 1 0 0"], ["map 1 ptr 97 0 98 0"], ["array 1 plain 0 0 0"])]:
            for how in ("assign", "ctor", "value"):
                out.append(("", a + b + ["copy 0 1 " + how, "obs", "scribble 0", "obs", "copy 0 0 " + how, "copy 1 0 assign", "new 0 Integer 1", "obs", "setnum 0 Long 77", "obs"]))
            out.append(("", a + b + ["pair 2 0 1", "append 2 2", "append 2 0", "obs", "elem 3 2 2", "scribble 3", "elem 2 2 0", "obs", "new 3 String 99 whole", "obs"]))
            out.append(("", a + b + ["map 3 obj 97 0 98 1 97 1", "putin 3 99 3", "putin 3 97 3", "obs", "elem 3 3 0", "obs", "new 0 None", "new 1 None", "obs"]))
    return out


def replay06(beh):
    out = []
    ty = {"Integer": "Integer", "Long": "Long", "LongLong": "LongLong"}
    for h in beh:
        ops = []
        for o in h:
            if o[0] == "num":
                ops.append("new %d %s %s" % (o[1], ty[o[2]], "".join(map(chr, o[3]))))
            elif o[0] == "str":
                ops.append("new %d String %s whole" % (o[1], J(o[2])))
            elif o[0] == "copy":
                ops.append("copy %d %d assign" % (o[1], o[2]))
            elif o[0] == "as":
                ops.append("as %d %s" % (o[1], o[2]))
            else:
                ops.append(" ".join(map(str, o)))
        out.append(("", ops + ["obs"]))
    return out


def run_c06(c):
    t = c.model_check("VarModel", workers=4, minimum=5000)
    beh = c.behaviours(t, c.n(2500, 40000))
    if c.thorough:
        c.model_check("VarModel", "VarModelBig.cfg", minimum=100000)
    drv = c.build("var_drv", ["var_drv.cpp"], lib=True)
    sc = systematic06()
    ns = len(sc)
    sc += replay06(beh)
    big = large(c.rng, c.n(60, 600), False)
    sc += big
    nr = c.n(1500, 20000)
    sc += [Gen(c.rng).script(c.rng.choice([10, 25, 50]), c.rng.choice([.1, .4, 1])) for _ in range(nr)]
    c.rng.shuffle(sc)
    c.extra.update(systematic_scenarios=ns, model_behaviours_replayed=len(beh), random_scenarios=nr, scenarios_with_large_values=len(big))
    c.conform(drv, "VarTrace", sc)


def run_c07(c):
    c.model_check("JsonModel", minimum=5000)
    drv = c.build("var_drv", ["var_drv.cpp"], lib=True)
    g, sc = c.rng, []
    hows = ["whole", "slice", "shared"]
    # every interesting character alone, in every pair, between others; from every kind of storage
    for h in hows:
        for a in JCH:
            sc.append(("", ["jstr %s %s" % (J(s), h) for s in [[a], [a, a], [97, a], [a, 97], [a, 0x1F600, a], [0x20AC, a, 48]] + [[a, b] for b in JCH]]))
    # sweeps of code points
    step = 120
    scal = list(range(0, 0xD800)) + list(range(0xE000, 0x110000))
    blocks = [scal[i:i + step] for i in range(0, len(scal), step)]
    pick = blocks if c.thorough else blocks[:30] + g.sample(blocks, 200) + [b for b in blocks if 0xD7FF in b or 0xFFFF in b or 0x10FFFF in b]
    for b in pick:
        sc.append(("", ["jstr %s %s" % (J(b), g.choice(hows))]))
    for _ in range(c.n(400, 5000)):
        sc.append(("", ["jstr %s %s" % (J([g.choice(JCH) if g.random() < .7 else g.choice(scal) for _ in range(g.randint(0, 30))]), g.choice(hows)) for _ in range(8)]))
    ind = [-2, -1, 0, 1, 2, 7]
    for v in ["new 0 None", "new 0 StrArray whole", "new 0 StrArray slice 34 -", "newtype 0 VarArray", "newtype 0 StrVarMap"] + ["new 0 Integer %d" % n for n in N32] + \
             ["new 0 LongLong %d" % n for n in N64] + ["new 0 Long %d" % n for n in N64] + ["new 0 String %s %s" % (J([ch]), h) for ch in JCH for h in ("whole", "slice")]:
        o = [v]
        for mk in ("", "array 0 plain 0", "pair 0 0 0", "map 0 ptr 97 0 98 0", "array 1 plain 0 2 0", "map 0 obj 34 1 - 0 128512 2"):
            o += ([mk] if mk else []) + ["json 0 %d" % i for i in ind] + ["json 0 -1 default"]
        sc.append(("", o))
    big = large(g, c.n(60, 600), True)
    sc += big
    nr = c.n(1200, 15000)
    sc += [Gen(g, JCH).script(g.choice([10, 25]), 0, json=.5) for _ in range(nr)]
    c.rng.shuffle(sc)
    c.extra.update(code_point_blocks=len(pick), random_scenarios=nr, scenarios_with_large_values=len(big))
    c.conform(drv, "VarTrace", sc)
