"""C14: Peg rules.  C15: what a parse delivers."""
import os
import vp
from checks.c18_ptr import J, text
from checks.pegexps import Gen, near, unsafe_of

NAMES = ["a", "ab", "a1", "aB", "A", "b", "b_", "ba", "TO", "TOPS", "T", "a_", "_", "x", "Z9", "abc", "z"]
TEXTS = [[], [97], [98], [97, 97], [97, 98], [98, 97], [97, 97, 97], [97, 97, 98], [97, 98, 97], [97, 98, 98]]
B = lambda s: list(s.encode())


def rule(name, p, caps=()):
    return "rule %s %s%s" % (J(B(name)), J(p if isinstance(p, list) else B(p)), "".join(" " + J(B(x)) for x in caps))


def grammar(g, kinds, most=22):
    """(rule lines, a text it may match)"""
    n = g.choice([2, 2, 3, 3, 4])
    names = g.sample(NAMES, n - 1)
    made, lines = {}, []

    def body(name, depth):
        labels, calls = [], [0]

        def call(gen):
            # mostly to rules that are already made, whose text is known
            k = g.random()
            to = g.choice(sorted(made)) if made and k < .75 else g.choice(names + ["TOP"] + (["nil"] if k > .98 else []))
            calls[0] += 1
            lab = []
            if g.random() < .35:
                lab = B(":" + g.choice(["x", "y", "v1", "ab", "a"]) + g.choice([":", ":", ":"]))
            labels.append(to if not lab else lab[1:-1])
            return B("<%s>" % to) + lab, made.get(to, [97])

        while True:
            del labels[:]
            calls[0] = 0
            gen = Gen(g, True, g.choice([0, .2, .5]), g.choice([0, .1, .3]), call)
            p, t = gen.seq(depth)
            if len(p) <= most and len(t) <= 8 and calls[0] <= 3:
                break
        made[name] = [b for b in t if b]
        labs = set(L if isinstance(L, str) else bytes(L).decode() for L in labels)
        caps = sorted(x for x in labs if g.random() < .8)
        # a label's name is always asked for; the names of others rarely
        import re
        caps = sorted(set(caps) | set(re.findall(r"(?<!>):([A-Za-z0-9_]+)", bytes(b for b in p if b < 128).decode())) | set(x for x in NAMES if g.random() < .05))
        lines.append((name, p, caps))

    for nm in names:
        body(nm, g.randint(1, 2))
    body("TOP", g.randint(1, 3))
    t = made["TOP"]
    g.shuffle(lines)
    return [rule(*x) for x in lines], t


def valid(t):
    try:
        bytes(t).decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def generated(c, n, kinds, per=8):
    g, sc = c.rng, []
    for _ in range(n):
        ops = []
        for _ in range(4):
            ls, t = grammar(g, kinds)
            ops += ["clear"] + ls
            ts = [t, []] + [near(g, t, True) for _ in range(per - 2)]
            for s in ts:
                s = s[:12]
                while not valid(s):
                    s = s[:-1] if g.random() < .5 else [b for b in s if b < 128]
                ops.append("%s %s" % (g.choice(kinds), J(s)))
        sc.append(("", ops))
    return sc


# grammars whose structure matters: name, rules, texts
def structures(kinds):
    G = []

    def add(rules, *texts):
        G.append(["clear"] + [rule(*r) for r in rules] + ["%s %s" % (k, J(B(t) if isinstance(t, str) else t)) for t in texts for k in kinds])
    T = ("", "a", "b", "aa", "ab", "ba", "aab", "aba", "abb", "x", "1", "1+1", "(1)", "((1))+1", "(1", "1+", "+1", "(1)+(1+1)")
    # left recursion: direct, through another, after something that may be empty, in lookaheads, at a later place
    add([("TOP", "|<TOP>b|a", ())], *T)
    add([("TOP", "<e>", ("e",)), ("e", "|<e>\\+<t>|<t>", ("e", "t")), ("t", "|1|\\(<e>\\)", ("e",))], *T)
    add([("TOP", "<a>", ("a",)), ("a", "|<b>b|a", ("b",)), ("b", "|<a>a|b", ("a",))], *T)
    add([("TOP", "<a>", ("a",)), ("a", "?b<a>", ("a",))], *T)
    add([("TOP", "<a>", ("a",)), ("a", "*b<a>", ("a",))], *T)
    add([("TOP", "!<TOP>a", ())], *T)
    add([("TOP", "&<a>a", ()), ("a", "|<TOP>|a", ())], *T)
    add([("TOP", "a?<TOP>:x:b", ("x",))], *T + ("aabb", "aaabbb", "aaabb", "aabbb"))
    add([("TOP", "|a<TOP>b|", ())], *T + ("aabb", "aaabbb", "aaabb"))
    add([("TOP", "+<a>", ("a",)), ("a", "*a", ())], *T)
    add([("TOP", "*<a>", ("a",)), ("a", "", ())], *T)
    add([("TOP", "<a><b><a>", ("a", "b")), ("a", "?a", ()), ("b", "?<a>b", ("a",))], *T)
    # a rule again where another ended, in a lookahead, after failing
    add([("TOP", "<a><a>", ("a",)), ("a", "|aa|a|", ())], *T)
    add([("TOP", "|<a>b|<a>a", ("a",)), ("a", "a", ())], *T)
    add([("TOP", "&<a><a>b", ("a",)), ("a", "a?<b>", ("b",)), ("b", "b", ())], *T)
    # an expression grammar
    add([("TOP", "<sum>!.", ("sum",)), ("sum", "<term>*([+\\-]:op:<term>)", ("term", "op")), ("term", "<fac>*([\\*/]:op:<fac>)", ("fac", "op")),
         ("fac", "|(+\\d):num:|\\(<sum>\\)", ("num", "sum"))], *T + ("1*2", "1+2*3", "1*2+3*(4+5)", "12-3", "1**2", "(1*)", "1+2)", "1+(2*3", "((1)", "12345*(67-8)+9"))
    # names that begin alike, in every order
    import itertools
    for names in (("a", "ab", "a1"), ("a", "aB", "a_"), ("ab", "a", "abc"), ("A", "a", "_"), ("T", "TO", "TOPS"), ("a1", "a", "a11")):
        for o in itertools.permutations(names):
            add([(x, ch, ()) for x, ch in zip(o, "abx")] + [("TOP", "|<%s><%s>|<%s>" % names, names)], *T[:10])
    for names in (("a", "ab"), ("ab", "a"), ("a1", "a"), ("TOP1", "TO")):
        for caps in ((), names[:1], names[1:], names, ("b",), (names[0] + "x",)):
            add([("TOP", "*(|<%s>|<%s>)" % names, caps), (names[0], "a", ()), (names[1], "b", ())], *T[:9])
            add([("TOP", "*(|<l>:%s:|<l>:%s)" % names, caps), ("l", "+a", ()), ], *T[:9])
    # calls to what is not there
    add([("TOP", "|<nil>|a", ("nil",))], *T[:4])
    add([("TOP", "?<nil>a*<no>!<nn>", ("nil",))], *T[:4])
    # captures: once, repeatedly, both, none of them wanted, empty, abandoned
    for p in ("<a>", "<a><a>", "?<a>", "*<a>", "+<a>", "<a>*<a>", "?<a>?<a>", "*(<a><b>)", "*(<a>|<b>|)", "|<a><b>|<a><a>|<a>", "*(|<a><b>|<b>)", "&<a>a*<b>", "*(&<a><b>)!<b>",
              "<a>:x:<b>:x:", "<a>:x:*<b>:x:", "*(<a>:x:)<b>:x:", "|<a>:x:b:y:a|a:y:<b>:x:", "(a:x:?b):y:", "*(a:x:?b:y:)", "*a:x:", "+[ab]:x:*.:y:", "(+a):x:(*b):y:", "*(*a:x:b:y:)", "(*(a:x:)b:y:):z:",
              "*(a:x:b:x:a)a:x:?b:y:", "?(a:x:a:x:a:x:b)*a:y:", "*(|a:x:a:x:b|a:y:b|a:x:)", "<c>", "*<c>", "<c>:x:*(<c>:y:)", "*(<c>:x:<b>)<c>", "(|<c>a|<c>b|<c>)"):
        import re
        labs = sorted(set(re.findall(r"[:]([xyz])", p)))
        for caps in (("a", "b", "c"), ("b",), ()):
            add([("TOP", p, tuple(labs) + caps), ("a", "a", ()), ("b", "*b", ()), ("c", "<a>?<b>", ("a", "b"))], "", "a", "b", "aa", "ab", "abab", "aab", "aaab", "aba", "abb", "aaa", "abaab", "bb", "aaaba")
    # punctuation that means nothing, in a rule
    for p in ("~@#%_;", "*[~_]", "*~?@", "|#a|%|;", "+(_a)", "a~:x:@", "!;.", "&#.a"):
        add([("TOP", p, ("x",) if ":" in p else ())], "", "a", "~", "~@#%_;", "~@#%_", "~~@", "@", "#a", "#", "%", ";", "_a_a", "a~@", "a@", "~_~")
    # where it could not go on
    for p in ("abc", "|ab|ac|b", "*a[bc]", "*(ab)c", "!a[bc]", "a!bc", "&a[ac]x", "|<a>x|<b>y", "<a><b>", "<a>?<b>x", "[ab][^a]\\x62c", "a\\dx", "a.$b", "*(|ab|ac)d", "+<b>", "|aab|aa[xy]|aac|ab", "a(|b|c|[de])(|x|y)", "<a>:x:[bc]:y:"):
        import re
        add([("TOP", p, tuple(sorted(set(re.findall(r":(\w+)", p))))), ("a", "|ab|a[cd]", ()), ("b", "<a>e", ())], "", "a", "b", "ab", "ac", "abe", "abx", "aa", "aad", "abab", "abac", "acd", "aax", "abeab", "a1", "a1x", "ade")
    return [("", sum(G[i:i + 5], [])) for i in range(0, len(G), 5)]


def deep(c, kinds):
    out = []
    for n in c.n((1, 10, 120), (1, 10, 120, 400)):
        t = [40] * n + [49] + [41] * n
        ops = ["clear", rule("TOP", "<e>!.", ("e",)), rule("e", "|\\(<e>\\)|1", ("e",))]
        for s in (t, t[:-1], t[1:], t[:n] + [50] + t[n + 1:], t + [41]):
            ops += ["%s %s" % (k, J(s)) for k in kinds]
        out.append(("", ops))
        ops = ["clear", rule("TOP", "<l>", ("l",)), rule("l", "a:x:?<l>", ("l", "x"))]
        ops += ["%s %s" % (k, J([97] * n)) for k in kinds] + ["clear", rule("TOP", "*<l>b", ("l",)), rule("l", "a", ())]
        ops += ["%s %s" % (k, J([97] * n + e)) for k in kinds for e in ([98], [])]
        out.append(("", ops))
    return out


def many(c, kinds):
    """Many rules, many captures, many alternatives; many things that could have come next"""
    out, g = [], c.rng
    for n in c.n((9, 17, 33), (9, 16, 17, 18, 31, 33, 34, 40, 65)):
        nm = ["%s%d" % (g.choice(["r", "rule", "R_"]), i) for i in range(n)]
        word = ["%s%s%d" % ("abc"[i % 3], "xy"[i % 2], i) for i in range(n)]
        rules = [rule(x, w, ()) for x, w in zip(nm, word)]
        some = g.sample(range(n), min(n, 6))
        texts = ["".join(word[i] for i in some), word[-1], word[0] + word[-1], "".join(word[i] for i in some) + "ax", word[n // 2][:-1], "".join(word) + "?"]
        for top in ("*(%s)!." % "".join("|<%s>" % x for x in nm), "".join("?<%s>" % x for x in nm), "+(%s)" % "".join("|<%s>:v%d:" % (x, i) for i, x in enumerate(nm))):
            caps = sorted(set(nm) | {"v%d" % i for i in range(n)}) if ":" in top else nm if n < 40 else nm[:3] + nm[-1:]
            ls = rules + [rule("TOP", top, caps)]
            g.shuffle(ls)
            out.append(("", ["clear"] + ls + ["%s %s" % (k, J(B(t))) for k in kinds for t in texts]))
        labs = ["l%d" % i for i in range(n)]
        ls = [rule("TOP", "".join("[ab]:%s:" % x for x in labs) + "?<d>", labs + ["d"]), rule("d", "d", ())]
        t = "".join(g.choice("ab") for _ in range(n))
        out.append(("", ["clear"] + ls + ["%s %s" % (k, J(B(x))) for k in kinds for x in (t, t + "d", t[:-1], t[:-1] + "c", "")]))
        # a chain of rules, each with captures of its own and of those below
        ls = [rule("TOP", "<c0>", ("c0",))] + [rule("c%d" % i, "a:x:<c%d>?b:y:" % (i + 1), ("x", "y", "c%d" % (i + 1))) for i in range(n)] + [rule("c%d" % n, "z", ())]
        t = "a" * n + "z" + "b" * (n // 2)
        out.append(("", ["clear"] + ls + ["%s %s" % (k, J(B(x))) for k in kinds for x in (t, t[:n], t[:n] + "y", "a" * n + "z")]))
    return out


def modelled(c, sample, kinds):
    t = c.tlc("PegGram", "PegGramRec.cfg", workers=vp.NCPU, timeout=300)
    sc, g = [], c.rng
    beh = c.behaviours(t, sample)
    for i in range(0, len(beh), 10):
        ops = []
        for p, q in beh[i:i + 10]:
            ops += ["clear", rule("TOP", p, ("x", "a")), rule("a", q, ("x", "a"))]
            ops += ["%s %s" % (g.choice(kinds), J(s)) for s in TEXTS]
        sc.append(("", ops))
    return sc


def run(c, kinds):
    drv = c.build("peg", ["peg_drv.cpp"], lib=True)
    c.conform(drv, "PegGramTrace", structures(kinds), label="structure")
    c.conform(drv, "PegGramTrace", deep(c, kinds), label="deep")
    c.conform(drv, "PegGramTrace", many(c, kinds), label="many")
    c.conform(drv, "PegGramTrace", modelled(c, c.n(800, 30000), kinds), label="model")
    c.conform(drv, "PegGramTrace", generated(c, c.n(300, 6000), kinds), label="random")


def run_c14(c):
    c.model_check("PegGram", "PegGramBig.cfg" if c.thorough else None, minimum=10000, timeout=850)
    unsafe_of(c, "PegGram", "PegGram.cfg", ["LeftRecursion"])
    run(c, ["plain", "plain", "parse"])


def run_c15(c):
    c.model_check("PegGram", "PegGramTopBig.cfg" if c.thorough else "PegGramTop.cfg", minimum=10000, timeout=850)
    unsafe_of(c, "PegGram", "PegGramRoll.cfg", ["RollBack", "Further", "Once"])
    run(c, ["parse"])
