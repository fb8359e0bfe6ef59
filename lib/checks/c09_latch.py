"""C09: latches exclude, and wake-ups are not lost."""
import os
import vp


def cfg(c, name, until, puts, all_="TRUE", held="TRUE", timed="{}", record=False):
    """until, puts: per actor 0.."""
    mod = os.path.join(c.tmp, "LM_%s.tla" % name)
    with open(mod, "w") as f:
        f.write("---- MODULE LM_%s ----\nEXTENDS LatchModel\n" % name)
        f.write("U == %s\n" % " @@ ".join("(%d :> <<%s>>)" % (a, ", ".join(map(str, u))) for a, u in enumerate(until)))
        f.write("P == %s\n====\n" % " @@ ".join("(%d :> %d)" % x for x in enumerate(puts)))
    with open(mod[:-3] + "cfg", "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS Until <- U\n Puts <- P\n All = %s\n Held = %s\n Timed = %s\n Record = %s\n" % (all_, held, timed, "TRUE" if record else "FALSE"))
        f.write("INVARIANTS OneInside InsideHolds%s\n" % (" Script" if record else ""))
        if not record:
            f.write("PROPERTY Finishes\n")
    return "LM_" + name


def design(c):
    runs = [("a", dict(until=[[1], [2], []], puts=[0, 0, 2])), ("b", dict(until=[[1], []], puts=[1, 1], all_="FALSE")),
            ("c", dict(until=[[1], [1], []], puts=[0, 0, 1], timed="{0, 1}", held="FALSE"))]
    if c.thorough:
        runs += [("d", dict(until=[[1, 3], [2], [], []], puts=[0, 0, 2, 1])), ("e", dict(until=[[1], [2], [3], []], puts=[1, 1, 0, 1]))]
    for n, k in runs:
        m = cfg(c, n, **k)
        t = c.tlc(m, cwd=c.tmp, workers=vp.NCPU, extra=["-DTLA-Library=" + vp.SPEC] if False else [])
        if t.rc != 0 or "No error has been found" not in t.out:
            raise vp.CheckError("LatchModel %s\n%s" % (n, t.out[-4000:]))
        c.states += t.distinct
        c.transitions += t.generated
        c.extra.setdefault("design_models", []).append(dict(module="LatchModel", constants=str(k), distinct_states=t.distinct, generated=t.generated))
    # programs that misuse the same guarantees do get stuck: the model tells the difference
    for n, k in [("x", dict(until=[[1], [2], []], puts=[0, 0, 2], all_="FALSE")), ("y", dict(until=[[1], []], puts=[0, 1], held="FALSE"))]:
        t = c.tlc(cfg(c, n, **k), cwd=c.tmp, workers=vp.NCPU)
        if "violated" not in t.out and "Deadlock" not in t.out:
            raise vp.CheckError("the model finds nothing wrong with %s\n%s" % (n, t.out[-3000:]))
    c.extra["unsafe_programs_rejected_by_model"] = 2


def guided(c, number):
    sc = []
    for n, (u, p, al, tm) in enumerate([([[1], [2], []], [0, 0, 2], True, ""), ([[1], [1], []], [0, 0, 2], False, ""), ([[1], [2], []], [1, 0, 1], True, "0"),
                                        ([[1], [], []], [0, 1, 1], False, ""), ([[2], [3], [], []], [1, 0, 1, 1], True, "")]):
        m = cfg(c, "g%d" % n, u, p, "TRUE" if al else "FALSE", timed="{%s}" % tm, record=True)
        t = c.tlc(m, cwd=c.tmp, extra=["-simulate", "num=%d" % number, "-depth", "200", "-seed", str(c.seed + n)], timeout=60)
        seen = set()
        for h in c.behaviours(t):
            g = ",".join(map(str, h))
            if g in seen or len(g) > 4000:
                continue
            seen.add(g)
            sc.append(("guide=" + g, ["A %d %s" % (a, " / ".join(["until%s 0 0 %d" % ("t" if str(a) in tm.split(",") else "", v) for v in u[a]] + ["put%s 0 0" % ("b" if al else "")] * p[a])) for a in range(len(u))]))
        if not seen:
            raise vp.CheckError("no behaviours: " + t.out[-2000:])
    return sc


def program(g):
    """A random program for 2 to 4 actors.  A latch is never held while sleeping, so that a timed wait ends when it should."""
    n = g.choice([2, 3, 4, 2, 3, 4, 2, 3, 4, 7])
    style = g.random()
    sc = []
    for a in range(n):
        ops = []
        for _ in range(g.randint(1, 4)):
            x = g.random()
            l, k = g.randrange(2), g.randrange(2)
            if style < .35:     # monitors
                l = k = 0
                ops += ["until 0 0 %d" % g.randint(1, 3)] if x < .4 and a else ["put%s 0 0" % g.choice(["", "b"])] if x < .8 else ["crit 0"]
            elif style < .6:    # exclusion
                ops += ["crit %d" % l] if x < .5 else ["try %d" % l] if x < .8 else ["holding %d" % l] if x < .9 else ["enter 1", "probe 0" , "leave 1"] if x < .95 else ["enter 0", "holding 0", "critin 0", "probe 0", "leave 0"]
            else:               # waiting, with or without a latch, timed or not
                ms = g.choice([0, 1, 2, 3, 5, 999, 1000, 1001, 2500])
                ops += ["enter %d" % l, "twait %d %d %d" % (l, l, ms), "leave %d" % l] if x < .2 else ["enter %d" % l, "wait %d %d" % (l, l), "leave %d" % l] if x < .3 else \
                    ["wait 2 -1"] if x < .36 else ["twait 2 -1 %d" % ms] if x < .46 else ["signal %d" % g.randrange(3)] if x < .66 else ["bcast %d" % g.randrange(3)] if x < .76 else \
                    ["yield %d" % g.choice([1, 2, 4, 1000])] if x < .88 else ["enter %d" % l, g.choice(["signal %d", "bcast %d"]) % l, "leave %d" % l]
        sc.append("A %d %s" % (a, " / ".join(ops)))
    return sc


def run(c):
    # the generated modules extend the committed ones
    for m in ("LatchModel", "LatchSpec"):
        os.symlink(os.path.join(vp.SPEC, m + ".tla"), os.path.join(c.tmp, m + ".tla"))
    design(c)
    drv = c.build("latch_drv", ["latch_drv.cpp"], lib=True, sched=True)
    g = c.rng
    sc = guided(c, c.n(300, 4000))
    c.extra["schedules_taken_from_the_model"] = len(sc)
    small = [["A 0 crit 0", "A 1 crit 0 / try 0"], ["A 0 crit 0", "A 1 try 0", "A 2 crit 0"], ["A 0 until 0 0 1", "A 1 put 0 0"], ["A 0 until 0 0 1", "A 1 until 0 0 2", "A 2 putb 0 0 / putb 0 0"],
             ["A 0 until 0 0 1", "A 1 put 0 0", "A 2 put 0 0"], ["A 0 wait 0 -1", "A 1 yield 1 / signal 0"], ["A 0 wait 0 -1", "A 1 wait 0 -1", "A 2 yield 1 / signal 0 / yield 1 / signal 0"],
             ["A 0 wait 0 -1", "A 1 wait 0 -1", "A 2 yield 1 / bcast 0"], ["A 0 wait 0 -1", "A 1 signal 0"], ["A 0 twait 0 -1 3", "A 1 yield 1 / signal 0"], ["A 0 twait 0 -1 3", "A 1 yield 5 / signal 0"],
             ["A 0 enter 0 / twait 0 0 2 / leave 0", "A 1 enter 0 / signal 0 / leave 0"], ["A 0 enter 0 / twait 0 0 2 / critin 0 / leave 0", "A 1 crit 0 / bcast 0", "A 2 crit 0"],
             ["A 0 enter 0 / wait 0 0 / leave 0", "A 1 enter 0 / wait 0 0 / leave 0", "A 2 yield 1 / enter 0 / bcast 0 / leave 0"], ["A 0 enter 0 / holding 0 / leave 0 / holding 0", "A 1 holding 0 / crit 0"],
             ["A 0 twait 0 -1 0 / twait 0 -1 1 / enter 1 / twait 1 1 0 / leave 1", "A 1 signal 0"], ["A 0 new 0 / crit 0 / enter 0 / holding 0 / leave 0", "A 1 new 1 / crit 1 / probe 1 / enter 1 / holding 1 / leave 1"],
             ["A 0 enter 0 / enter 1 / wait 0 0 / leave 1 / leave 0", "A 1 yield 1 / holding 1 / crit 1", "A 2 yield 2 / crit 0 / signal 0"]]
    small += [["A 0 twait 0 -1 %d / twait 0 -1 1" % ms] for ms in (1, 399, 400, 401, 999, 1000, 1001, 1999, 2000, 3500, 61000)]
    small += [["A 0 enter 0 / twait 1 0 %d / leave 0" % ms, "A 1 crit 0"] for ms in (1, 400, 1000, 2001)]
    for us in (0, 500000, 990000, 999000, 999999):
        small_us = ["A 0 twait 0 -1 1 / twait 0 -1 10 / twait 0 -1 489 / twait 0 -1 500 / twait 0 -1 1000", "A 1 enter 0 / twait 1 0 1 / leave 0"]
        sc.append(("limit=20 us=%d" % us, small_us))
        sc.append(("limit=20 us=%d" % us, ["A 0 twait 0 -1 10"]))
    for s in small:
        sc.append(("limit=%d bound=%d" % (c.n(1200, 20000), c.n(2, 3)), s))
    for i in range(c.n(240, 2500)):
        sc.append(("rand=1 seed=%d limit=%d us=%d%s" % (g.randrange(10 ** 6), c.n(30, 120), g.choice([0, 999000, 999600, 998000]), g.choice(["", "", " tick=30", " tick=200"])), program(g)))
    g.shuffle(sc)
    # latches constructed by several threads, before any other latch
    try:
        only = c.build("latch_only", ["latch_drv.cpp", os.path.join(vp.REPO, "src/lockfree.cpp")], flags=["-DLATCH_ONLY"], sched=True)
    except vp.CheckError:      # it has become more than a header and this source
        only = None
    if only:
        c.conform(only, "LatchTrace", [("limit=%d bound=2" % c.n(800, 5000), ["A %d new %d / enter %d / holding %d / leave %d / probe %d" % (a, a, a, a, a, a) for a in range(n)]) for n in (1, 2, 3)], label="only")
    c.conform(drv, "LatchTrace", sc, label="sched")
