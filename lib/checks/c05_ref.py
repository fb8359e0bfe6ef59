"""C05: shared storage under threads."""
import vp

KINDS = 14
# the model's operations (RefCount.tla) on each kind of value
OPS = {1: lambda g, r, s: g.choice(["cp %d %d", "mv %d %d", "nest %d %d"]) % (r, s), 2: lambda g, r, s: g.choice(["drop", "dtor"]) + " %d" % r,
       3: lambda g, r, s: mutate(g, r), 4: lambda g, r, s: "give %d 0" % r, 5: lambda g, r, s: "take %d 0" % r,
       6: lambda g, r, s: "app %d %d" % (r, g.randrange(10)), 7: lambda g, r, s: "cut %d" % r}


def mutate(g, r):
    return g.choice(["app %d %d" % (r, g.randrange(10)), "front %d %d" % (r, g.randrange(10)), "set0 %d %d" % (r, g.randrange(10)), "cut %d" % r])


def design(c):
    c.model_check("RefCount", minimum=1000)
    for switch in ("AtomicCount", "TestDecrement", "CopyFirst", "AddFirst", "SetFirst"):
        t = variant(c, switch)
        if "is violated" not in t.out:
            raise vp.CheckError("RefCount without %s is not rejected\n%s" % (switch, t.out[-2000:]))
    c.extra["unsafe_designs_rejected_by_model"] = 5
    if c.thorough:
        import os
        p = open(os.path.join(vp.SPEC, "RefCount.cfg")).read()
        big = [p.replace("{1, 2}\n          Regs", "{1, 2, 3}\n          Regs").replace("{1, 2, 3, 4, 5}", "{1, 2, 3, 4, 5, 6, 7, 8}").replace("Lists = TRUE", "Lists = FALSE"),
               p.replace("Regs = {1, 2}", "Regs = {1}").replace("{1, 2, 3, 4, 5}", "{1, 2, 3, 4, 5, 6, 7}").replace("MaxOps = 2", "MaxOps = 3")]
        for i, s in enumerate(big):
            q = os.path.join(c.tmp, "big%d.cfg" % i)
            open(q, "w").write(s)
            c.model_check("RefCount", q, timeout=400, heap="16g")


def variant(c, switch=None, record=False, simulate=0):
    import os
    s = open(os.path.join(vp.SPEC, "RefCount.cfg")).read()
    if switch:
        s = s.replace(switch + " = TRUE", switch + " = FALSE")
    if record:
        s = s.replace("Record = FALSE", "Record = TRUE").replace("Counted", "Counted Script").replace("MaxOps = 2", "MaxOps = 3").replace("5}", "5, 6, 7, 8}")
    q = os.path.join(c.tmp, "v.cfg")
    open(q, "w").write(s)
    return c.tlc("RefCount", q, workers=1 if simulate else vp.NCPU, extra=["-simulate", "num=%d" % simulate, "-depth", "150", "-seed", str(c.seed)] if simulate else [], timeout=90)


def programs(c, number):
    t = variant(c, record=True, simulate=number)
    out, seen = [], set()
    for h in c.behaviours(t):
        p = {1: [], 2: []}
        for a, op, r, s in h:
            p[a].append((op, r - 1, s - 1 if s else 0))
        key = tuple(sorted(map(tuple, p.values())))
        if key not in seen:
            seen.add(key)
            out.append(key)
    if not out:
        raise vp.CheckError("no behaviours " + t.out[-2000:])
    return out


def lines(g, prog):
    return ["A %d %s" % (a, " / ".join(OPS[op](g, r, s) for op, r, s in ops)) for a, ops in enumerate(prog)]


def random_op(g):
    r, s = g.randrange(3), g.randrange(3)
    x = g.random()
    if x < .2:
        return g.choice(["cp", "mv", "nest"]) + " %d %d" % (r, s)
    if x < .3:
        return "sub %d %d %d %d" % (r, s, g.randrange(3), g.randint(1, 4))
    if x < .55:
        return mutate(g, r)
    if x < .6:
        return "cat %d %d" % (r, s)
    if x < .72:
        return "get %d" % r
    if x < .82:
        return g.choice(["drop", "dtor"]) + " %d" % r
    return g.choice(["give", "take"]) + " %d %d" % (r, g.randrange(2))


def run(c):
    design(c)
    drv = c.build("refc_drv", ["refc_drv.cpp"], lib=True, sched=True)
    g = c.rng
    sc = []
    # enumerated: every interleaving (to a bound on preemptions) at every access to a count
    small = [["get 0", "drop 0"], ["cp 1 0", "dtor 0"], ["cp 0 0", "drop 0"], ["app 0 1", "app 0 2"], ["app 0 1", "cp 1 0 / drop 0"], ["set0 0 1 / get 0", "get 0 / set0 0 2"],
             ["drop 0", "drop 0"], ["cut 0 / get 0", "front 0 3"], ["sub 0 0 1 2 / app 0 4", "app 0 5 / get 0"], ["sub 1 0 0 2 / app 1 4 / get 0", "sub 1 0 1 2 / front 1 5 / get 0"],
             ["app 0 3 / give 0 0", "take 0 0 / app 0 1"], ["take 1 0 / drop 0", "give 1 0 / cp 1 0"], ["cat 0 0 / get 0", "mv 1 0 / cat 1 0"], ["nest 1 0 / drop 0", "nest 0 0 / drop 0", "cp 2 0 / dtor 0"],
             ["drop 0", "drop 0", "drop 0"], ["app 0 1", "set0 0 1", "cut 0"]]
    for kind in range(KINDS):
        for k, s in enumerate(small):
            sc.append(("kind=%d limit=%d bound=%d" % (kind, c.n(120, 2500), c.n(2, 3)), ["A %d %s" % x for x in enumerate(s)]))
    progs = programs(c, c.n(1500, 20000))
    c.extra["programs_taken_from_the_model"] = len(progs)
    for i in range(c.n(250, 3000)):
        p = progs[g.randrange(len(progs))]
        sc.append(("kind=%d init=%d %s" % (i % KINDS, g.choice([1, 2, 3]), g.choice(["limit=30 bound=2", "rand=1 limit=30 seed=%d mem=%d" % (g.randrange(10 ** 6), g.choice([0, 20, 100, 300]))])), lines(g, p)))
    for i in range(c.n(300, 4000)):
        n = g.randint(2, 4)
        sc.append(("kind=%d init=%d rand=1 limit=%d seed=%d mem=%d" % (i % KINDS, g.choice([0, 1, 2, 3, 4]), c.n(25, 100), g.randrange(10 ** 6), g.choice([0, 20, 100, 300])),
                   ["A %d %s" % (a, " / ".join(random_op(g) for _ in range(g.randint(1, 5)))) for a in range(n)]))
    # values with many holders (130, 262 and 66000 are not multiples of 7, plus one)
    for kind in range(KINDS):
        for n, lim in ((130, 8), (262, 8), (66000, 2)):
            sc.append(("kind=%d init=3 limit=%d bound=1" % (kind, lim), ["A 0 many 1 0 %d / get 0 / app 1 3 / get 0 / many 2 1 3 / drop 0 / get 1" % n, "A 1 get 0 / cp 1 0 / drop 0 / get 1"]))
    # the first use of shared storage, by several threads at once
    for kind in (0, 7, 9):
        for i in range(c.n(12, 200)):
            sc.append(("kind=%d init=%d rand=1 limit=%d seed=%d mem=%d" % (kind, g.choice([3, 4, 5]), c.n(60, 200), g.randrange(10 ** 6), g.choice([100, 300])),
                       ["A %d %s" % (a, g.choice(["get 0", "get 0", "sub 1 0 1 3", "app 0 1", "front 0 1", "cut 0", "set0 0 4", "cp 1 0 / get 1"])) for a in range(g.randint(2, 3))]))
    g.shuffle(sc)
    c.conform(drv, "RefTrace", sc, label="sched")
