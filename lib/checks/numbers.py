"""C20: string to integer."""
import itertools

def J(v):
    return ",".join(map(str, v)) or "-"


def show(n, r, up=False):
    if n == 0:
        return "0"
    d = ""
    while n:
        d = "0123456789abcdefghijklmnopqrstuvwxyz"[n % r] + d
        n //= r
    return d.upper() if up else d


def run_c20(c):
    c.model_check("NumModel", minimum=20000)
    drv = c.build("num_drv", ["num_drv.cpp"], lib=True)
    g = c.rng
    cases = []
    A = [ord(x) for x in "0198xXbB-+ afgZz."]
    for n in range(0, 4 if not c.thorough else 5):
        alpha = A if n < 4 else [ord(x) for x in "01x9b- f."]
        for v in itertools.product(alpha, repeat=n):
            for r in ((0, 2, 8, 10, 16, 36) if n < 3 else (g.choice([0, 2, 16]), g.choice([0, 10, 8, 16, 36, 3])) if n == 3 else (g.choice([0, 2, 8, 10, 16, 11, 36]),)):
                cases.append((list(v), r))
    # numbers around every limit the representation has, in every radix, decorated
    lim = [0, 1, 2**15, 2**16, 2**31, 2**32, 2**63, 2**64, 2**65, 2**31 * 10, 10**9, 10**10, 10**19, 10**20, 36**6, 36**12, 36**13, 3**40, 3**41, 2**31 + 2**32, 2**64 + 5, 2**64 * 3 + 7]
    for r in range(2, 37):
        for b in lim + [r ** k for k in range(1, 70, 7 if not c.thorough else 1)]:
            for d in (-2, -1, 0, 1, 2):
                if b + d < 0:
                    continue
                t = show(b + d, r, g.random() < .5)
                pre = g.choice(["", "", "-", "+", " ", " -", "- ", "\t-", "\u3000", "0", "-000"])
                if r in (2, 16) and g.random() < .5:
                    pre = pre.rstrip("0") + ("0b" if r == 2 else "0x")
                post = g.choice(["", "", "", " ", "\u2000\t", " x", "#", ".0", "\0", "-"])
                cases.append(([ord(x) for x in pre + t + post], g.choice([r, r, 0]) if r in (2, 8, 10, 16) else r))
    for r in (-1, -2147483648, 37, 100, 2147483647):
        for t in ("", "0", "12", "x"):
            cases.append(([ord(x) for x in t], r))
    DIG = [48, 49, 55, 56, 57, 1632, 1633, 1641, 2406, 2415, 65296, 65297, 65305, 0x3007, 0x3021, 0x3029, 0xAE7, 0xAE6, 0x1369, 0x1819, 0x17E0, 0xE59, 97, 98, 102, 103, 120, 122, 65, 66, 70, 88, 90]
    for _ in range(c.n(6000, 120000)):
        n = g.choice([1, 2, 3, 5, 8, 9, 10, 11, 12, 20, 32, 33, 40])
        v = [g.choice(DIG) for _ in range(n)] if g.random() < .4 else [g.choice([48, 49, 50, 57]) for _ in range(n)]
        if g.random() < .5:
            v = [g.choice([32, 9, 10, 13, 11, 12, 160, 8192, 12288, 43, 45]) for _ in range(g.randint(1, 3))] + v
        if g.random() < .5:
            v += [g.choice([32, 9, 160, 12288, 48, 33, 0, 233, 0x20AC, 0x1F600, 95]) for _ in range(g.randint(1, 3))]
        cases.append((v, g.choice([0, 0, 10, 10, 16, 2, 8, 36, g.randint(2, 36)])))
    # long texts: what a number is does not depend on how much is written around it
    for _ in range(c.n(500, 8000)):
        r = g.choice([0, 10, 10, 16, 2, 8, 36, g.randint(2, 36)])
        W = [32, 9, 10, 13, 160, 8192, 12288]
        many = lambda al: [g.choice(al)] * g.choice([0, 0, 1, 63, 64, 65, 127, 130, 255, 256, 257, 300]) if g.random() < .6 else []
        d = [ord(x) for x in show(g.choice(lim[1:] + [g.randrange(1, 2 ** 31), g.randrange(1, 2 ** 33), 2 ** 31 - 1]) + g.choice([-1, 0, 0, 1, 2]), r, g.random() < .5)] if r and g.random() < .7 else [g.choice([48, 49, 55, 57]) for _ in range(g.choice([1, 9, 60, 70, 257, 300]))]
        pre = g.choice([[], [], [45], [43]]) + (g.choice([[], [48, 120 if r == 16 else 98]]) if r in (2, 16) else [])
        cases.append((many(W) + pre + many([48, 48, 0x660]) + d + g.choice([[], [], many(W), many([120, 33, 0x1F600]), many(W) + [57]]), r))
    g.shuffle(cases)
    ops = ["num %s %d %s" % (J(v), r, g.choice(["whole", "slice"])) for v, r in cases]
    sc = [("", ops[i:i + 50]) for i in range(0, len(ops), 50)]
    c.extra["cases"] = len(cases)
    c.conform(drv, "NumTrace", sc)
