"""C03: arrays are sequences with value semantics."""
NR = 4
VISITS = ["each", "find", "rfind", "detect", "all", "any", "one", "select", "map", "inject"]
CHANGES = ["push", "unshift", "clear", "empty", "pull", "set", "reverse", "append"]


def changed(w, what, e, v):
    return {"push": w + [e], "unshift": [e] + w, "clear": [], "empty": [], "pull": w[:-1], "set": w[:-1] + [e] if w else w, "reverse": w[::-1], "append": w + v}[what]


class Gen:
    """Random scripts of array operations.  Tracks the lengths only, to keep arguments legal;
    the expected values are ArraySpec's business."""

    def __init__(self, rng):
        self.g = rng

    def lst(self, n=None):
        n = self.g.choice([0, 1, 1, 2, 3, 4, 5, 7]) if n is None else n
        return [self.g.randint(1, 6) for _ in range(n)]

    def script(self, nops, weights=None):
        g = self.g
        ln = [0] * NR
        vals = [[] for _ in range(NR)]      # mirrors contents so that generated arguments hit often
        ops = []
        names = (["new"] * 6 + ["copy"] * 6 + ["slice"] * 8 + ["head", "tail", "shorter", "drop"] * 2 + ["plus"] * 3 + ["plus_e"] * 2 +
                 ["set"] * 4 + ["push"] * 5 + ["unshift"] * 3 + ["insert"] * 6 + ["append"] * 5 + ["shift"] * 3 + ["pull"] * 3 +
                 ["delete_at"] * 3 + ["remove"] * 6 + ["clear"] + ["reverse"] * 3 + ["delete_if"] * 3 + ["compare"] * 3 + ["eq"] * 2 +
                 ["find"] * 2 + ["rfind"] * 2 + ["find_if", "rfind_if", "detect", "all", "any", "one", "each", "last", "elem", "select", "map", "inject", "bsearch", "visit", "visit"])
        for _ in range(nops):
            o = g.choice(names)
            r, s, t = g.randrange(NR), g.randrange(NR), g.randrange(NR)
            v, w, u = vals[r], vals[s], vals[t]
            L = len(v)
            e = g.randint(1, 6)
            m = g.choice([2, 3, 3, 7])
            k = g.randrange(m)
            P = lambda x: x % m == k
            if max(len(w) + len(u), L + len(w)) > 24 and o in ("plus", "append", "insert"):
                o = "slice"
            if o == "new":
                x = self.lst()
                hows = ["data", "alloc", "push", "body"]
                if len(x) == 1:
                    hows += ["one"]
                hows += ["sub"]
                if g.random() < .25:
                    x.sort()
                ops.append("new %d %s %s" % (r, ",".join(map(str, x)) or "-", g.choice(hows)))
                vals[r] = x
            elif o == "copy":
                ops.append("copy %d %d %s" % (r, s, g.choice(["ctor", "assign"])))
                vals[r] = list(w)
            elif o == "slice":
                at = g.randint(0, len(w) + 1)
                n = g.choice([-1, 0, 1, 2, 3, len(w), len(w) + 2, max(0, len(w) - at), max(0, len(w) - at - 1)])
                ops.append("slice %d %d %d %d" % (r, s, at, n))
                vals[r] = w[at:] if n == -1 else w[at:at + n]
            elif o in ("head", "tail", "shorter", "drop"):
                n = g.randint(0, len(w))
                if o == "drop" and n == 0 and False:
                    continue
                ops.append("%s %d %d %d" % (o, r, s, n))
                vals[r] = {"head": w[:n], "tail": w[len(w) - n:], "shorter": w[:len(w) - n], "drop": w[n:]}[o]
            elif o == "plus":
                ops.append("plus %d %d %d" % (r, s, t))
                vals[r] = w + u
            elif o == "plus_e":
                ops.append("plus_e %d %d %d" % (r, s, e))
                vals[r] = w + [e]
            elif o == "set":
                if not L:
                    continue
                i = g.randrange(L)
                ops.append("set %d %d %d %s" % (r, i, e, g.choice(["set", "mut", "last"])))
                v = list(v)
                v[i] = e
                vals[r] = v
            elif o == "push":
                if L > 24:
                    continue
                ops.append("push %d %d %s" % (r, e, g.choice(["plus", "shl", "append", "push", "own"])))
                vals[r] = v + ([v[e % L]] if L and ops[-1].endswith("own") else [e])
            elif o == "unshift":
                if L > 24:
                    continue
                ops.append("unshift %d %d %s" % (r, e, g.choice(["", "own"])))
                vals[r] = ([v[e % L]] if L and ops[-1].endswith("own") else [e]) + v
            elif o == "visit":
                what, at = g.choice(CHANGES), g.randint(0, 3)
                if what == "append" and len(w) + L > 24:
                    continue
                ops.append("visit %d %d %s %d %s %d" % (r, s, g.choice(VISITS), at, what, e))
                vals[s] = changed(w, what, e, v) if at < L else w
            elif o == "insert":
                at = g.choice([0, L, g.randint(0, L)])
                ops.append("insert %d %d %d" % (r, at, s))
                vals[r] = v[:at] + w + v[at:]
            elif o == "append":
                ops.append("append %d %d %s" % (r, s, g.choice(["plus", "append"])))
                vals[r] = v + w
            elif o == "shift":
                if not L:
                    continue
                ops.append("shift %d" % r)
                vals[r] = v[1:]
            elif o == "pull":
                if not L:
                    continue
                ops.append("pull %d" % r)
                vals[r] = v[:-1]
            elif o == "delete_at":
                if not L:
                    continue
                i = g.randrange(L)
                ops.append("delete_at %d %d" % (r, i))
                vals[r] = v[:i] + v[i + 1:]
            elif o == "remove":
                at = g.randint(0, L)
                n = g.choice([-1, g.randint(0, L - at), g.randint(0, L - at)])
                ops.append("remove %d %d %d" % (r, at, n))
                vals[r] = v[:at] + ([] if n == -1 else v[at + n:])
            elif o == "clear":
                ops.append("clear %d" % r)
                vals[r] = []
            elif o == "reverse":
                ops.append("reverse %d" % r)
                vals[r] = v[::-1]
            elif o == "delete_if":
                ops.append("delete_if %d %d %d" % (r, m, k))
                vals[r] = [x for x in v if not P(x)]
            elif o in ("compare", "eq"):
                ops.append("%s %d %d" % (o, r, s))
            elif o in ("find", "rfind"):
                ops.append("%s %d %d %d" % (o, r, e, g.randint(-1, L)))
            elif o in ("find_if", "rfind_if"):
                ops.append("%s %d %d %d %d" % (o, r, m, k, g.randint(-1, L)))
            elif o in ("detect", "all", "any", "one"):
                ops.append("%s %d %d %d" % (o, r, m, k))
            elif o == "each":
                ops.append("each %d" % r)
            elif o == "last":
                if L:
                    ops.append("last %d %s" % (r, g.choice(["ref", "val"])))
            elif o == "elem":
                if L:
                    ops.append("elem %d %d %s" % (r, g.randrange(L), g.choice(["ref", "ptr", "val"])))
            elif o == "select":
                ops.append("select %d %d %d %d" % (r, s, m, k))
                vals[r] = [x for x in w if P(x)]
            elif o == "map":
                if max(w or [0]) > 100:
                    continue
                ops.append("map %d %d %d" % (r, s, g.randint(0, 3)))
                kk = int(ops[-1].split()[-1])
                vals[r] = [2 * x + kk for x in w]
            elif o == "inject":
                ops.append("inject %d %d" % (r, g.randint(0, 9)))
            elif o == "bsearch":
                if g.random() < .7:
                    x = sorted(self.lst())
                    ops.append("new %d %s data" % (r, ",".join(map(str, x)) or "-"))
                    vals[r] = x
                    if x and g.random() < .5:
                        ops.append("slice %d %d 1 -1" % (r, r))
                        vals[r] = x[1:]
                ops.append("bsearch %d %d" % (r, g.randint(0, 7)))
        return ops


def boundary_scripts():
    """Systematic: every mutating operation on every kind of slice of a body, shared or not."""
    out = []
    muts = []
    for L in (0, 1, 3):
        for at in range(0, L + 1):
            muts.append((L, "insert 0 %d 1" % at))
            muts.append((L, "insert 0 %d 0" % at))
            for n in range(-1, L - at + 1):
                muts.append((L, "remove 0 %d %d" % (at, n)))
        for i in range(L):
            muts.append((L, "set 0 %d 6 set" % i))
            muts.append((L, "set 0 %d 6 mut" % i))
            muts.append((L, "delete_at 0 %d" % i))
        for how in ("plus", "shl", "append", "push"):
            muts.append((L, "push 0 6 " + how))
        for o in ("unshift 0 6", "append 0 1 plus", "append 0 1 append", "append 0 0 append", "append 0 0 plus", "clear 0", "reverse 0",
                  "delete_if 0 2 0", "delete_if 0 2 1", "delete_if 0 1 0", "delete_if 0 7 0", "copy 0 0 assign",
                  "select 0 0 2 1", "map 0 0 1", "plus 0 0 0", "plus 0 0 1", "plus_e 0 0 6", "compare 0 2", "eq 0 2"):
            muts.append((L, o))
        if L:
            muts += [(L, "shift 0"), (L, "pull 0")]
        muts += [(L, "push 0 %d own" % e) for e in (0, 1, 2)] + [(L, "unshift 0 %d own" % e) for e in (0, 1, 2)]
        for how in VISITS:
            for what in CHANGES:
                for at in range(L):
                    muts.append((L, "visit 0 0 %s %d %s 6" % (how, at, what)))
                muts.append((L, "visit 0 2 %s 0 %s 6" % (how, what)))
        for i in range(-1, L + 1):
            for e in (2, 3, 4, 6):
                muts.append((L, "find 0 %d %d" % (e, i)))
                muts.append((L, "rfind 0 %d %d" % (e, i)))
        for e in range(0, 8):
            muts.append((L, "bsearch 0 %d" % e))
        for o in ("each 0", "all 0 2 0", "any 0 2 0", "one 0 2 0", "inject 0 5", "detect 0 2 1"):
            muts.append((L, o))
    setup = {0: ["new 3 1,2,3,4,5 data", "slice 0 3 0 0", "head 2 3 2"], 1: ["new 3 1,2,3,4,5 data", "slice 0 3 2 1", "head 2 3 3"],
             3: ["new 3 1,2,3,4,5 data", "slice 0 3 1 3", "slice 2 3 4 1"]}
    shapes = {
        "null": lambda L: ["new 1 5,6 data"] if L == 0 else None,
        "cleared": lambda L: ["new 1 5,6 data", "new 0 1,2 data", "clear 0"] if L == 0 else None,
        "shared": lambda L: ["new 1 5,6 data"] + setup[L],
        "tailslice": lambda L: ["new 1 5,6 data", "new 3 1,2,3,4,5 data", "tail 0 3 %d" % L, "head 2 3 %d" % (5 - L)],
        "headslice": lambda L: ["new 1 5,6 data", "new 3 1,2,3,4,5 data", "head 0 3 %d" % L],
        "unsharedslice": lambda L: ["new 1 5,6 data"] + setup[L] + ["clear 3", "new 3 - data", "new 2 - data"],
        "unsharedtail": lambda L: ["new 1 5,6 data", "new 3 1,2,3,4,5 data", "tail 0 3 %d" % L, "new 3 - data"],
        "whole": lambda L: ["new 1 5,6 data", "new 0 %s alloc" % (",".join(map(str, range(2, 2 + L))) or "-")],
        "adjacent": lambda L: ["new 3 1,2,3,4,5 data", "slice 0 3 1 %d" % L, "slice 1 3 %d 2" % (1 + L), "slice 2 3 0 1"],
        "adjacent2": lambda L: ["new 3 1,2,3,4,5 data", "slice 0 3 2 %d" % L, "slice 1 3 0 2", "slice 2 3 0 1"],
    }
    for name, fn in shapes.items():
        for L, m in muts:
            s = fn(L)
            if s is None:
                continue
            post = ["push 0 4 push", "push 3 1 push", "unshift 2 3"]
            out.append((["obj", "int", "int", "obj", "short", "int"][len(out) % 6], s + [m] + post))
    return out


def grow_scripts(rng, n):
    """Arrays well beyond one allocation: every size about where storage is replaced, added to by a few or by many."""
    out = []
    J = lambda v: ",".join(map(str, v)) or "-"
    for i in range(n):
        a = rng.choice([7, 8, 9, 15, 16, 17, 24, 31, 33, 47, 48, 49, 63, 65, 100, 127, 129, 200])
        b = rng.choice([1, 2, a // 3, a // 2, a // 2 + 1, a // 2 + 7, a - 1, a, 2 * a, 3 * a])
        ops = ["new 0 %s %s" % (J(range(a)), rng.choice(["data", "alloc"])), "new 1 %s data" % J(range(b))]
        if rng.random() < .4:
            ops += ["slice 0 0 %d %d" % (rng.randint(0, 3), a - 4)]
            a -= 4
        if rng.random() < .5:
            ops += ["push 0 5 push"] * rng.randint(1, 3) + ["pull 0"]
        if rng.random() < .3:
            ops += ["copy 2 0 assign"]
        for k in range(rng.choice([1, 1, 2])):
            ops.append(rng.choice(["append 0 1 append", "append 0 1 plus", "insert 0 %d 1" % rng.randint(0, a), "insert 0 0 1", "plus 0 0 1", "plus 0 1 0", "append 0 0 append", "insert 0 %d 0" % (a // 2)]))
        ops += ["push 0 6 push", "unshift 0 7", "remove 0 %d %d" % (rng.randint(1, a // 2), rng.randint(1, a // 2)), "reverse 0"]
        out.append((rng.choice(["int", "obj", "short"]), ops))
    return out


def replay_scripts(beh):
    """Behaviours of the storage model (ArrayCow) as driver scripts."""
    out = []
    for h in beh:
        ops = []
        for o in h:
            n, r, a = o[0], o[1], o[2:]
            if n == "new":
                ops.append("new %d %d,%d data" % (r, a[0], a[1]))
            elif n == "drop":
                ops.append("slice %d %d 0 0" % (r, r))
            elif n in ("push", "unshift", "clear"):
                ops.append(" ".join([n, str(r)] + [str(x) for x in a]))
            elif n == "set":
                ops.append("set %d %d %d set" % (r, a[0], a[1]))
            elif n == "copy":
                ops.append("copy %d %d assign" % (r, a[0]))
            else:       # slice, insert, remove: same argument order
                ops.append(" ".join([n, str(r)] + [str(x) for x in a]))
        out.append(("int", ops))
    return out


def run(c):
    t = c.model_check("ArrayCow", workers=1, minimum=1000)
    beh = c.behaviours(t)
    if c.thorough:
        c.model_check("ArrayCow", "ArrayCowMid.cfg", minimum=10000)
        c.model_check("ArrayCow", "ArrayCowBig.cfg", minimum=100000)
    drv = c.build("array_drv", ["array_drv.cpp"])
    ng = c.n(100, 1500)
    sc = boundary_scripts() + grow_scripts(c.rng, ng)
    nb = len(sc)
    mb = replay_scripts(c.rng.sample(beh, min(len(beh), c.n(4000, 60000))))
    sc += mb
    g = Gen(c.rng)
    nr = c.n(1000, 15000)
    for i in range(nr):
        sc.append((["obj", "int", "int", "obj", "short", "int"][i % 6], g.script(c.rng.choice([8, 20, 40]))))
    c.rng.shuffle(sc)
    c.extra.update(boundary_scenarios=nb, model_behaviours_replayed=len(mb), random_scenarios=nr)
    c.conform(drv, "ArrayTrace", sc)
