"""C01, C02, C21: strings.  Script generators shared by the three checks."""
NR = 4
ALPH = {
    "ascii": [97, 98, 99, 65, 66, 120, 32, 33],
    "mixed": [97, 98, 65, 233, 201, 255, 1078, 0x20AC, 0x6F22, 0x1F600, 32],
    "wide": [0x20AC, 0x6F22, 0x1F600, 0x10400, 233],
    "case": [97, 65, 122, 90, 224, 192, 233, 201, 255, 376, 945, 913, 969, 937, 1078, 1046, 304, 305, 383, 8490, 8491, 8486, 8126, 0x1F600, 0x6F22, 48],
    "two": [97, 0x1F600],
    "nul": [97, 0, 233, 98],
    # letters whose other case is of another width, or is not the way back; title-case letters; the ends of the tables
    "odd": [181, 255, 304, 305, 383, 452, 453, 454, 498, 499, 921, 953, 931, 962, 963, 1081, 1120, 1415, 1377, 4256, 7776, 7777, 7835, 8064, 8072, 8115, 8124, 8126, 8486, 8490, 8491, 8544, 8560, 9398, 9424, 65313, 65345, 66560, 66600, 97, 90],
}
STATIC = [[ord(c) for c in "static text"], [ord(c) for c in "sté € uro 😀 end"], [0x6F22]]
LOWER = {304: 105, 8490: 107, 8491: 229, 8486: 969}
UPPER = {305: 73, 383: 83, 8126: 921}


def J(v):
    return ",".join(map(str, v)) or "-"


def low(c):
    for a, b in ((224, 192), (229, 197), (233, 201), (255, 376), (945, 913), (969, 937), (1078, 1046)):
        if c == b:
            return a
    return c + 32 if 65 <= c <= 90 else LOWER.get(c, c)


def upp(c):
    for a, b in ((224, 192), (229, 197), (233, 201), (255, 376), (945, 913), (969, 937), (1078, 1046)):
        if c == a:
            return b
    return c - 32 if 97 <= c <= 122 else UPPER.get(c, c)


def X(k, s):
    if k == 0: return 1, [s[0]]
    if k == 1: return 1, []
    if k == 2: return 1, [s[0], s[0]]
    if k == 3: return (2, [s[1], s[0]]) if len(s) > 1 else (1, [s[0]])
    if k == 4: return (0, [33]) if s[0] == 98 else (1, [45, s[0]])
    if k == 5: return 1, [233, 128512, 120]
    if k == 6: return len(s), [8364]
    if k == 7: return 0, []
    if k == 8: return (1, [8364, s[0]]) if s[0] < 128 else (1, [97])
    if k == 9: return min(3, len(s)), [97 + i for i in range(1, 13)]


def xform(k, s, after):
    p = min(after + 1, len(s))
    out, s = s[:p], s[p:]
    while s:
        n, o = X(k, s)
        out = out + o
        if n == 0:
            return out + s
        s = s[n:]
    return out


MUT = ["new"] * 5 + ["copy"] * 6 + ["substr"] * 9 + ["head", "tail", "shorter"] * 2 + ["plus"] * 3 + ["plus_lit"] * 2 + ["lit_plus"] + \
      ["insert"] * 8 + ["append"] * 6 + ["append_c"] * 5 + ["prepend"] * 3 + ["mul"] * 2 + ["lower", "upper"] * 2 + ["aslower", "asupper"] + ["transform"] * 3
QRY = ["len", "bytes"] + ["at"] * 4 + ["utf8", "utf8c"] + ["cmp"] * 4 + ["find"] * 3 + ["rfind"] * 3 + ["find_s"] * 4 + ["rfind_s"] * 4 + \
      ["find_any", "rfind_any", "find_not", "rfind_not"] * 2


class Gen:
    """Mirrors the values only to choose legal and interesting arguments."""

    def __init__(self, rng):
        self.g = rng

    def script(self, nops, names, obs=0.35, alph=None, maxlen=30):
        g = self.g
        alph = ALPH[alph or g.choice(["ascii", "mixed", "mixed", "wide", "case", "two"])]
        V = [[] for _ in range(NR)]
        ops = []

        def text(lo=0, hi=14):
            n = g.choice([0, 1, 2, 3, 5, 8, 9, 12, 14]) if lo == 0 else g.randint(lo, hi)
            n = min(n, hi)
            if g.random() < .5:
                return [g.choice(alph) for _ in range(n)]
            a = g.choice(alph)
            return [g.choice([a, a, g.choice(alph)]) for _ in range(n)]
        for _ in range(nops):
            o = g.choice(names)
            r, s, t = g.randrange(NR), g.randrange(NR), g.randrange(NR)
            v, w, u = V[r], V[s], V[t]
            if o == "new":
                x = text()
                hows = ["cnt", "alloc", "build"] + (["cstr", "cstr"] if 0 not in x else []) + (["char"] if len(x) == 1 else [])
                how = g.choice(hows)
                if g.random() < .1:
                    k = g.randrange(3)
                    x, how = list(STATIC[k]), "st%d" % k
                ops.append("new %d %s %s" % (r, J(x), how))
                V[r] = x
            elif o == "copy":
                ops.append("copy %d %d %s" % (r, s, g.choice(["ctor", "assign", "assign", "ref", "variant"])))
                V[r] = w
            elif o == "substr":
                at = g.randint(0, len(w) + 1)
                n = g.choice([-1, -1, 0, 1, 2, 3, len(w), len(w) + 3, max(0, len(w) - at - 1), max(0, len(w) - at)])
                ops.append("substr %d %d %d %d" % (r, s, at, n))
                V[r] = w[at:] if n == -1 else w[at:at + n]
            elif o in ("head", "tail", "shorter"):
                n = g.randint(0, len(w))
                ops.append("%s %d %d %d" % (o, r, s, n))
                V[r] = {"head": w[:n], "tail": w[len(w) - n:], "shorter": w[:len(w) - n]}[o]
            elif o == "plus":
                if len(w) + len(u) > maxlen:
                    continue
                ops.append("plus %d %d %d" % (r, s, t))
                V[r] = w + u
            elif o in ("plus_lit", "lit_plus"):
                x = [c for c in text(0, 5) if c]
                if len(w) + len(x) > maxlen:
                    continue
                how = "char" if len(x) == 1 and g.random() < .6 and o == "plus_lit" else "z"
                ops.append("%s %d %d %s %s" % (o, r, s, J(x), how))
                V[r] = w + x if o == "plus_lit" else x + w
            elif o in ("insert", "append", "prepend"):
                if len(v) + len(w) > maxlen:
                    continue
                at = {"append": len(v), "prepend": 0}.get(o)
                if at is None:
                    at = g.choice([0, len(v), g.randint(0, len(v)), g.randint(0, len(v)), len(v) // 2])
                    ops.append("insert %d %d %d" % (r, at, s))
                elif o == "append":
                    ops.append("append %d %d %s" % (r, s, g.choice(["plus", "append"])))
                else:
                    ops.append("prepend %d %d" % (r, s))
                V[r] = v[:at] + w + v[at:]
            elif o == "append_c":
                if len(v) >= maxlen:
                    continue
                c = g.choice(alph)
                ops.append("append_c %d %d" % (r, c))
                V[r] = v + [c]
            elif o == "mul":
                n = g.randint(0, 3)
                if len(w) * n > maxlen:
                    n = 1
                ops.append("mul %d %d %d" % (r, s, n))
                V[r] = w * n
            elif o in ("lower", "upper"):
                ops.append("%s %d" % (o, r))
                V[r] = [low(c) if o == "lower" else upp(c) for c in v]
            elif o in ("aslower", "asupper"):
                ops.append("%s %d %d" % (o, r, s))
                V[r] = [low(c) if o == "aslower" else upp(c) for c in w]
            elif o == "transform":
                k = g.randrange(10)
                after = g.choice([-1, -1, -1, g.randint(-1, len(v) + 1)])
                x = xform(k, v, after)
                if len(x) > maxlen + 10:
                    continue
                ops.append("transform %d %d %d" % (r, k, after))
                V[r] = x
            elif o in ("len", "bytes", "utf8", "utf8c"):
                ops.append("%s %d" % (o, r))
            elif o == "at":
                ops.append("at %d %d" % (r, g.randint(0, len(v))))
            elif o == "cmp":
                ops.append("cmp %d %d" % (r, s))
            elif o in ("find", "rfind"):
                c = g.choice(v) if v and g.random() < .7 else g.choice(alph)
                ops.append("%s %d %d %d" % (o, r, c, g.choice([-1, -1, g.randint(-1, len(v))])))
            elif o in ("find_s", "rfind_s", "find_any", "rfind_any", "find_not", "rfind_not"):
                if o.endswith("_s") and v and g.random() < .5:     # make a needle that occurs, or nearly
                    at = g.randrange(len(v))
                    n = g.randint(0, 4)
                    if s != r:
                        ops.append("substr %d %d %d %d" % (s, r, at, n))
                        V[s] = v[at:at + n]
                        if g.random() < .4:
                            c = g.choice(alph)
                            ops.append("append_c %d %d" % (s, c))
                            V[s] = V[s] + [c]
                ops.append("%s %d %d %d" % (o, r, s, g.choice([-1, -1, g.randint(-1, len(v))])))
            if g.random() < obs:
                ops.append("obs")
        ops.append("obs")
        return ("", ops)


def replay_scripts(beh, rng):
    """Behaviours of the storage-and-bookmark model StrCow as driver scripts.  The model's
    strings are short; stretch every model character to `k` real ones so that positions are
    beyond the distances at which the code starts to keep bookmarks."""
    out = []
    for h in beh:
        k = rng.choice([1, 2, 4])
        cm = [rng.choice([97, 98, 65]), rng.choice([0x20AC, 0x1F600, 233, 201, 8490, 304]), rng.choice([8490, 0x6F22])]
        exp = lambda e: [rng.choice(cm)] * k
        ops = []
        for o in h:
            n, r, a = o[0], o[1], o[2:]
            if n == "new":
                ops.append("new %d %s cnt" % (r, J(exp(a[0]) + exp(a[1]))))
            elif n == "drop":
                ops.append("new %d - cstr" % r)
            elif n == "copy":
                ops.append("copy %d %d %s" % (r, a[0], "assign" if a[1] else "ctor"))
            elif n == "substr":
                ops.append("substr %d %d %d %d" % (r, a[0], a[1] * k, a[2] * k if a[2] > 0 else a[2]))
            elif n == "push":
                for c in exp(a[0]):
                    ops.append("append_c %d %d" % (r, c))
            elif n == "insert":
                ops.append("insert %d %d %d" % (r, a[0] * k, a[1]))
            elif n == "case":
                ops.append("%s %d" % (rng.choice(["lower", "upper"]), r))
            elif n == "look":
                ops.append("at %d %d" % (r, a[0] * k))
            else:
                raise KeyError(n)
        # look at everything from both ends afterwards
        ops += ["obs"]
        out.append(("", ops))
    return out


def bookmark_scripts():
    """Systematic: bodies with every pattern of narrow and wide characters around the places where
    lookups change strategy; a lookup that may leave a bookmark, a change before, at or after it,
    then reads at every position."""
    out = []
    n = 0
    texts = []
    for L in (8, 9, 12):
        for pat in range(0, 8):
            texts.append([[97 + i % 26, 0x20AC, 0x1F600, 233][(pat >> (i % 3)) & 1 and 1 + (i + pat) % 3] for i in range(L)])
    for tx in texts:
        for look in (0, 4, 5, len(tx) - 4, len(tx)):
            for change in ("insert 0 %d 1", "case", "slice", "sliceins", "mul", "copyins", "append"):
                for at in ((0, 3, look, len(tx)) if change in ("insert 0 %d 1",) else (3,)):
                    n += 1
                    ops = ["new 0 %s cnt" % J(tx), "new 1 %s cnt" % J([0x1F600, 98]), "new 2 %s cnt" % J([65]),
                           "insert 0 %d 2" % look]      # a non-const lookup: leaves a bookmark at `look`
                    if change.startswith("insert"):
                        ops += ["insert 0 %d 1" % at]
                    elif change == "case":
                        ops += ["upper 0"]
                    elif change == "slice":
                        ops += ["substr 3 0 3 -1", "mul 2 3 1", "insert 3 2 1"]
                    elif change == "sliceins":
                        ops += ["substr 0 0 2 %d" % (len(tx) - 3), "mul 3 0 2", "insert 0 %d 1" % (len(tx) - 4)]
                    elif change == "mul":
                        ops += ["mul 3 0 2", "insert 0 1 1"]
                    elif change == "copyins":
                        ops += ["copy 3 0 assign", "insert 3 1 1", "insert 3 6 2", "insert 0 5 1"]
                    elif change == "append":
                        ops += ["append 0 1 plus", "append 0 0 append", "insert 0 7 2"]
                    ops += ["at 0 %d" % i for i in range(0, len(tx))] + ["find 0 %d -1" % tx[-1], "rfind 0 %d -1" % tx[0], "obs"]
                    out.append(("", ops))
    return out


def slice_mark_scripts():
    """Slices from every region of a longer text; a lookup that remembers the slice's end; then a change in
    every region of the slice, and another, of the slice itself, of a copy or with the string it is of gone."""
    out = []
    tx = [0x4E00 + i for i in range(18)]
    for mixed in (0, 1):
        if mixed:
            tx = [[97 + i, 0x20AC, 0x1F600, 233][i * 7 % 4] for i in range(18)]
        for a, b in ((0, 9), (0, 14), (2, 10), (4, 13), (5, 18), (9, 14)):
            n = b - a
            for look in ("mul 2 0 1", "mul 2 0 2", "utf8 0", "copy 2 0 assign", "insert 0 %d 2" % n):
                for change in ["insert 0 %d 1" % k for k in sorted({0, 1, n // 2, n - 2, n - 1, n})] + ["upper 0", "transform 0 2 %d" % (n // 2), "append_c 0 33"]:
                    for after in ("insert 0 %d 1" % (n // 2), "insert 0 %d 2" % (n - 1)):
                        ops = ["new 3 %s cnt" % J(tx), "new 1 %s cnt" % J([0x1F600, 98]), "substr 0 3 %d %d" % (a, n), look, change, "obs", after]
                        out.append(("", ops + ["at 0 %d" % i for i in (0, n // 2, n - 1, n)] + ["insert 3 9 1", "obs"]))
    return out


def grow_scripts(rng, n):
    """Strings well beyond one allocation, added to by a few characters or by many."""
    out = []
    for i in range(n):
        wide = rng.choice([[97, 98, 99], [97, 0x20AC, 0x1F600, 233, 98]])
        a = rng.choice([6, 7, 8, 9, 15, 16, 17, 24, 31, 33, 47, 49, 63, 65, 100, 127, 129, 200])
        b = rng.choice([1, 2, a // 3, a // 2, a // 2 + 1, a // 2 + 7, a - 1, a, 2 * a, 3 * a])
        ops = ["new 0 %s %s" % (J([rng.choice(wide) for _ in range(a)]), rng.choice(["cnt", "alloc", "cstr", "build"])), "new 1 %s cnt" % J([rng.choice(wide) for _ in range(b)])]
        if rng.random() < .4:
            ops += ["substr 0 0 %d %d" % (rng.randint(0, 2), a - 4)]
            a -= 4
        if rng.random() < .5:
            ops += ["append_c 0 %d" % rng.choice(wide)] * rng.randint(1, 3)
        if rng.random() < .3:
            ops += ["copy 2 0 assign"]
        for k in range(rng.choice([1, 1, 2])):
            ops.append(rng.choice(["append 0 1 append", "append 0 1 plus", "insert 0 %d 1" % rng.randint(0, a), "prepend 0 1", "plus 0 0 1", "plus 0 1 0", "append 0 0 append", "insert 0 %d 0" % (a // 2), "mul 0 0 3",
                                   "transform 0 5 %d" % rng.choice([-1, a // 2]), "transform 0 9 %d" % rng.choice([-1, a // 2]), "transform 0 8 -1"]))
        ops += ["append_c 0 33", "upper 0", "obs", "at 0 %d" % (a // 2), "find 0 33 -1", "utf8 0", "obs"]
        out.append(("", ops))
    return out


def boundary_scripts():
    """Every mutation on every shape of slice, followed by observation of all values."""
    out = []
    base = [97, 233, 0x20AC, 98, 0x1F600]
    shapes = {
        "whole": ["new 0 %s cnt" % J(base)],
        "shared": ["new 0 %s cnt" % J(base), "copy 2 0 assign"],
        "head": ["new 3 %s cnt" % J(base), "head 0 3 3"],
        "tail": ["new 3 %s cnt" % J(base), "tail 0 3 3"],
        "mid": ["new 3 %s cnt" % J(base), "substr 0 3 1 3"],
        "uhead": ["new 3 %s cnt" % J(base), "head 0 3 3", "new 3 - cstr"],
        "utail": ["new 3 %s cnt" % J(base), "tail 0 3 3", "new 3 - cstr"],
        "umid": ["new 3 %s cnt" % J(base), "substr 0 3 1 3", "new 3 - cstr"],
        "adj": ["new 3 %s cnt" % J(base), "substr 0 3 1 2", "substr 2 3 3 2"],
        "adjrev": ["new 3 %s cnt" % J(base), "substr 0 3 2 2", "substr 2 3 0 2"],
        "static": ["new 0 %s st1" % J(STATIC[1])],
        "stslice": ["new 3 %s st1" % J(STATIC[1]), "substr 0 3 2 6"],
        "empty": [],
        "emptied": ["new 0 %s cnt" % J(base), "transform 0 1 -1"],
        "one": ["new 0 97 char"],
    }
    lens = {"whole": 5, "shared": 5, "adj": 2, "adjrev": 2, "static": len(STATIC[1]), "stslice": 6, "empty": 0, "emptied": 0, "one": 1}
    for name, pre in shapes.items():
        L = lens.get(name, 3)
        muts = []
        for at in sorted(set([0, 1, L // 2, max(0, L - 1), L])):
            if at <= L:
                for s in (0, 1, 2, 3):
                    muts.append("insert 0 %d %d" % (at, s))
        muts += ["append 0 %d %s" % (s, h) for s in (0, 1, 2, 3) for h in ("plus", "append")]
        muts += ["prepend 0 %d" % s for s in (0, 1, 2, 3)]
        muts += ["append_c 0 %d" % c for c in (97, 0x1F600)] + ["lower 0", "upper 0", "aslower 2 0", "asupper 0 0", "mul 0 0 2", "mul 2 0 0",
                 "plus 0 0 1", "plus 0 1 0", "plus 2 0 0", "plus 0 0 2", "plus_lit 0 0 233 char", "plus_lit 2 0 97,8364 z", "lit_plus 0 0 97,8364", "copy 0 0 assign", "copy 0 0 variant"]
        muts += ["transform 0 %d %d" % (k, a) for k in range(10) for a in (-1, 0, L - 1)]
        for m in muts:
            out.append(("", ["new 1 %s cnt" % J([0x20AC, 120])] + pre + [m, "obs", "append_c 0 33", "insert 3 0 1", "utf8 0", "utf8 2", "obs", "append_c 2 63", "obs"]))
    return out


def search_scripts(rng, n):
    """Searches with every starting point on texts made to contain near-misses, on whole strings
    and on slices whose neighbours would match."""
    out = []
    for i in range(n):
        al = rng.choice([[97, 98], [97, 0x20AC], [233, 0x1F600, 97], [0x1F600, 0x1F601]])
        tx = [rng.choice(al) for _ in range(rng.randint(1, 9))]
        a = rng.randint(0, len(tx))
        b = rng.randint(a, len(tx))
        nd = [rng.choice(al) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 12]))]
        if i % 16 == 0:     # long: the text is mostly repeats, the needle a stretch of it or nearly
            tx = [rng.choice(al[:2]) if rng.random() < .1 else al[0] for _ in range(rng.choice([40, 70, 130, 260]))]
            a, b = rng.randint(0, 5), len(tx) - rng.randint(0, 5)
            p = rng.randint(a, b - 9)
            nd = tx[p:p + rng.choice([3, 9, 17, 33, 70])]
            if rng.random() < .3:
                nd[rng.randrange(len(nd))] = al[-1]
        ops = ["new 3 %s cnt" % J(tx), "substr 0 3 %d %d" % (a, b - a), "new 1 %s cnt" % J(nd)]
        L = b - a
        if rng.random() < .3:
            ops += ["new 3 - cstr"]
        for k in range(-1, L + 1) if L < 20 else [-1] + rng.sample(range(L + 1), 6):
            o = rng.choice(["find_s", "rfind_s", "find_any", "rfind_any", "find_not", "rfind_not"])
            ops.append("%s 0 1 %d" % (o, k))
            ops.append("%s 0 %d %d" % (rng.choice(["find", "rfind"]), rng.choice(al), k))
        ops += ["cmp 0 1", "cmp 1 0", "cmp 0 3", "cmp 3 0"]
        out.append(("", ops))
    return out


def run_c01(c):
    t = c.model_check("StrCow", workers=1, minimum=1000)
    beh = c.behaviours(t, c.n(2500, 40000))
    if c.thorough:
        c.model_check("StrCow", "StrCowBig.cfg", minimum=10000)
    drv = c.build("str_drv", ["str_drv.cpp"], lib=True)
    sc = boundary_scripts() + slice_mark_scripts() + grow_scripts(c.rng, c.n(80, 1500))
    nb = len(sc)
    mb = replay_scripts(beh, c.rng)
    sc += mb
    g = Gen(c.rng)
    nr = c.n(1200, 16000)
    for i in range(nr):
        sc.append(g.script(c.rng.choice([10, 20, 40]), MUT, obs=c.rng.choice([.1, .5, 1])))
    c.rng.shuffle(sc)
    c.extra.update(boundary_scenarios=nb, model_behaviours_replayed=len(mb), random_scenarios=nr)
    c.conform(drv, "StrTrace", sc)


def run_c02(c):
    c.model_check("StrIndex", minimum=1000)
    if c.thorough:
        c.model_check("StrIndex", "StrIndexBig.cfg", minimum=10000)
    drv = c.build("str_drv", ["str_drv.cpp"], lib=True)
    sc = bookmark_scripts() + slice_mark_scripts() + grow_scripts(c.rng, c.n(80, 1500))
    nb = len(sc)
    ns = c.n(800, 10000)
    sc += search_scripts(c.rng, ns)
    g = Gen(c.rng)
    nr = c.n(1000, 14000)
    names = MUT + QRY * 2
    for i in range(nr):
        sc.append(g.script(c.rng.choice([15, 30, 50]), names, obs=c.rng.choice([0, .1, .3])))
    c.rng.shuffle(sc)
    c.extra.update(bookmark_scenarios=nb, search_scenarios=ns, random_scenarios=nr)
    c.conform(drv, "StrTrace", sc)


def run_c21(c):
    c.model_check("XformModel", minimum=100)
    drv = c.build("str_drv", ["str_drv.cpp"], lib=True)
    sc = []
    # every transform function, starting point and width pattern on whole strings and slices
    rng = c.rng
    for k in range(10):
        for al in ("ascii", "mixed", "wide", "case", "two"):
            for L in (0, 1, 2, 3, 7, 8, 9, 15, 17):
                tx = [rng.choice(ALPH[al]) for _ in range(L)]
                for after in sorted(set([-1, 0, L // 2, L - 1, L])):
                    if after < -1:
                        continue
                    pre = [["new 0 %s cnt" % J(tx)],
                           ["new 3 %s cnt" % J([233] + tx + [97, 0x20AC]), "substr 0 3 1 %d" % L],
                           ["new 3 %s cnt" % J([233] + tx + [97, 0x20AC]), "substr 0 3 1 %d" % L, "new 3 - cstr"]][rng.randrange(3)]
                    sc.append(("", pre + ["transform 0 %d %d" % (k, after), "obs", "utf8 0", "append_c 0 98", "insert 0 0 3", "obs"]))
    for al in ("ascii", "mixed", "wide", "case", "odd"):
        for o in ("lower 0", "upper 0", "aslower 1 0", "asupper 1 0"):
            for _ in range(c.n(25, 250)):
                L = rng.choice([0, 1, 2, 5, 9, 16, 40])
                tx = [rng.choice(ALPH[al]) for _ in range(L)]
                pre = [["new 0 %s cnt" % J(tx)], ["new 0 %s cnt" % J(tx), "copy 2 0 assign"],
                       ["new 3 %s cnt" % J([90, 304] + tx + [97, 0x20AC]), "substr 0 3 2 %d" % L],
                       ["new 3 %s cnt" % J([90, 304] + tx + [97, 0x20AC]), "substr 0 3 2 %d" % L, "new 3 - cstr"]][rng.randrange(4)]
                post = ["at 0 %d" % i for i in range(0, L + 1, 3)] + ["find 0 97 -1", "append_c 0 233", "substr 2 0 1 -1", "obs"]
                sc.append(("", pre + [o, "obs"] + post))
    # texts long enough to need more than the first allocation, or to grow well past it while being transformed
    for _ in range(c.n(90, 1200)):
        tx = [rng.choice(ALPH[rng.choice(["ascii", "mixed", "wide", "case", "two"])]) for _ in range(rng.choice([33, 64, 65, 100, 127, 129, 200, 260]))]
        L = len(tx)
        pre = [["new 0 %s cnt" % J(tx)], ["new 0 %s cnt" % J(tx), "copy 2 0 assign"], ["new 3 %s cnt" % J([233] + tx + [97, 0x20AC]), "substr 0 3 1 %d" % L]][rng.randrange(3)]
        o = rng.choice(["lower 0", "upper 0", "aslower 1 0", "asupper 1 0"] + ["transform 0 %d %d" % (k, rng.choice([-1, -1, 0, L // 2, L - 1, L])) for k in rng.sample(range(10), 4)])
        sc.append(("", pre + [o, "obs", "at 0 0", "utf8 0", "append_c 0 98", "insert 0 0 3", "obs"]))
    nb = len(sc)
    g = Gen(rng)
    nr = c.n(500, 8000)
    for i in range(nr):
        sc.append(g.script(rng.choice([10, 25]), MUT + ["transform"] * 10 + ["lower", "upper", "aslower", "asupper"] * 4, obs=rng.choice([.1, .5]),
                           alph=rng.choice(["case", "odd", "mixed", "wide", "nul"])))
    c.rng.shuffle(sc)
    c.extra.update(systematic_scenarios=nb, random_scenarios=nr)
    c.conform(drv, "StrTrace", sc)
