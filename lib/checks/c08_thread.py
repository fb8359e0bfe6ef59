"""C08: threads are joined exactly once, after they ended, and every join ends."""
import os
import vp


def cfg(c, name, record=False, **k):
    d = dict(Threads="{1, 2}", Joiners="{}", JoinOne="{}", Forget="{}", FailStart="{}", WakeAll="TRUE", EndLatched="TRUE",
             WaitLoop="TRUE", Record="TRUE" if record else "FALSE")
    d.update(k)
    p = os.path.join(c.tmp, name + ".cfg")
    with open(p, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in d.items()))
        f.write("INVARIANTS CountsEnded Once OnlyEnded AllReported%s\n" % (" Script" if record else ""))
        if not record:
            f.write("PROPERTY Termination\n")
    return p


def st(n):
    return "{%s}" % ", ".join(map(str, range(1, n + 1)))


def design(c):
    """The algorithm, and that each protection in it is needed (the model rejects what lacks it)."""
    runs = [("m1", dict(Threads=st(3), Joiners="{1, 2}", FailStart="{2}")), ("m2", dict(Threads=st(3), Joiners="{1}", FailStart="{}")),
            ("m3", dict(Threads=st(3), JoinOne="{2}", Forget="{3}"))]
    if c.thorough:
        runs += [("m4", dict(Threads=st(5), Joiners="{1, 2}")), ("m5", dict(Threads=st(4), Joiners="{1, 2, 3}")), ("m6", dict(Threads=st(5), JoinOne="{1, 4}", Forget="{2, 3}"))]
    for n, k in runs:
        c.model_check("ThreadModel", cfg(c, n, **k), minimum=50)
    for n, k in [("x1", dict(WakeAll="FALSE", Joiners="{1}")), ("x2", dict(EndLatched="FALSE", Joiners="{1}")), ("x3", dict(WaitLoop="FALSE"))]:
        t = c.tlc("ThreadModel", cfg(c, n, **k), workers=vp.NCPU)
        if "violated" not in t.out and "Stuttering" not in t.out and "Deadlock reached" not in t.out and "violated" not in t.out and "Successor state" not in t.out:
            raise vp.CheckError("the model does not notice a missing protection (%s)\n%s" % (n, t.out[-3000:]))
    c.extra["unsafe_variants_rejected_by_model"] = 3


def guided(c, number):
    """Behaviours of the model, as schedules for the real code."""
    sc = []
    for n, (nt, j, fail, one) in enumerate([(3, 2, 0, []), (3, 1, 2, []), (2, 3, 0, []), (4, 1, 0, [2])]):
        if one:
            j = 0
        t = c.tlc("ThreadModel", cfg(c, "g%d" % n, True, Threads=st(nt), Joiners=st(j) if j else "{}", FailStart="{%d}" % fail if fail else "{}",
                                     JoinOne="{%s}" % ", ".join(map(str, one))), extra=["-simulate", "num=%d" % number, "-depth", "200", "-seed", str(c.seed + n)], timeout=60)
        seen = set()
        for h in c.behaviours(t):
            m, no = {}, j
            for k in range(1, nt + 1):
                if k != fail:
                    no += 1
                    m[100 + k] = no
            g = ",".join(str(m.get(p, p)) for p in h)
            if g in seen:
                continue
            seen.add(g)
            sc.append(("guide=%s%s" % (g, " failcreate=%d" % fail if fail else ""),
                       ["A 0 " + " / ".join(["start %d" % k for k in range(1, nt + 1)] + ["join %d" % k for k in one] + ["all"])] +
                       ["A %d all" % a for a in range(1, j + 1)]))
        if not seen:
            raise vp.CheckError("no behaviours: " + t.out[-2000:])
    return sc


def scenario(g):
    """A random arrangement within the contract: nobody joins by name what another may take."""
    x = g.random()
    n = g.choice([1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 7, 9])
    st = ["start %d" % k for k in range(1, n + 1)]
    B = ["B %d %s" % (k, g.choice(["yield 1", "yield 2", "cur", "exit", "yield 1 / exit", "yield 0"])) for k in range(1, n + 1) if g.random() < .6]
    if x < .35:     # starts and joiners
        return ["A 0 " + " / ".join(st + ["all"])] + ["A %d %s" % (a, g.choice(["all", "joinany", "yield 1 / all", "joinany / joinany"])) for a in range(1, g.randint(1, 4))] + B
    if x < .55:     # by name
        o = list(range(1, n + 1))
        g.shuffle(o)
        ops = st[:]
        for k in o:
            ops.append("join %d" % k)
            if g.random() < .5:
                ops.append("del %d" % k)
        ops.append("joinany")
        return ["A 0 " + " / ".join(ops)] + B
    if x < .7:      # some by name, some forgotten, the rest any
        ops = st[:]
        for k in g.sample(range(1, n + 1), g.randint(0, n)):
            ops += ["join %d" % k] if g.random() < .5 else ["forget %d" % k]
        return ["A 0 " + " / ".join(ops + ["all"])] + B
    if x < .85:     # one after another: identities are used again
        ops = []
        for k in range(1, n + 1):
            ops += ["start %d" % k, g.choice(["join %d / del %d" % (k, k), "forget %d" % k, "joinany", "joinany / join %d" % k, "join %d" % k])]
        done = [k for k in range(1, n + 1) if "join %d" % k in " / ".join(ops) and "del %d" % k not in " / ".join(ops)]
        if done and g.random() < .6:    # a joined thread destroyed when its identity is in use again
            k = g.choice(done)
            i = max(j for j, o in enumerate(ops) if "join %d" % k in o)
            j = g.randint(i + 1, len(ops))
            ops.insert(j, "del %d" % k)
        return ["A 0 " + " / ".join(ops + ["all"])] + B
    # threads that start and join threads
    B = ["B 1 start 15 / %sjoin 15%s" % (g.choice(["", "yield 1 / "]), g.choice(["", " / del 15", " / joinany"]) if n == 1 else ""), "B 15 " + g.choice(["cur", "yield 1", "exit"])]
    return ["A 0 " + " / ".join(st + ["join %d" % k for k in range(1, n + 1)])] + (B if not B[0].endswith("joinany") else [B[0].replace(" / joinany", ""), B[1]])


def run(c):
    design(c)
    drv = c.build("thread_drv", ["thread_drv.cpp"], lib=True, sched=True)
    g = c.rng
    sc = guided(c, c.n(400, 8000))
    c.extra["schedules_taken_from_the_model"] = len(sc)
    # every schedule up to a bound on preemptions
    small = [["A 0 start 1 / all"], ["A 0 start 1 / start 2 / all"], ["A 0 start 1 / all", "A 1 all"], ["A 0 start 1 / joinany", "A 1 joinany"],
             ["A 0 start 1 / join 1 / del 1 / joinany"], ["A 0 start 1 / forget 1 / joinany"], ["A 0 start 1 / start 2 / forget 1 / all"],
             ["A 0 start 1 / start 2 / join 2 / all"], ["A 0 start 1 / all", "A 1 joinany", "B 1 exit"], ["A 0 start 1 / all", "B 1 cur / yield 1"],
             ["A 0 start 1 / joinany / start 2 / join 2 / start 3 / all"], ["A 0 start 1 / join 1 / start 2 / del 1 / joinany / joinany"], ["A 0 start 1 / join 1 / start 2 / join 1 / del 1 / join 2", "B 2 yield 1"],
             ["A 0 start 1 / start 2 / join 1 / join 2", "B 1 start 5 / join 5"], ["A 0 start 1 / start 2 / start 3 / join 1 / join 3 / join 2", "B 1 start 5 / join 5"],
             ["A 0 joinany / cur / start 1 / all / joinany"]]
    for s in small:
        for i in (0, 1):    # fresh memory may look like an ended thread
            sc.append(("limit=%d bound=%d ids=%d fill=%d" % (c.n(1500, 20000), c.n(2, 3), i, 2 * i), s))
    for s in small[:4]:
        for f in (1, 2):
            if f <= sum(o.count("start") for o in s):
                sc.append(("limit=%d bound=2 failcreate=%d" % (c.n(500, 5000), f), s))
    for f in (1, 2, 3):
        sc.append(("limit=%d bound=1 failcreate=%d" % (c.n(300, 3000), f), ["A 0 start 1 / start 2 / start 3 / all / del 2 / del 1 / del 3"]))
    for i in range(c.n(120, 1200)):
        sc.append(("rand=1 seed=%d limit=%d ids=%d fill=%d spur=%d tick=%d" % (g.randrange(10 ** 6), c.n(60, 250), g.randrange(2), g.choice([0, 0, 1, 2]), g.choice([0, 0, 50]), g.choice([0, 50])), scenario(g)))
    g.shuffle(sc)
    c.conform(drv, "ThreadTrace", sc, label="sched")
