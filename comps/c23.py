"""C23: views of strings."""
import itertools
import random

ASSUMPTIONS = ["windows are only moved within the viewed text, as the C++17 string_view demands"]


def tok(s):
    return "x" + "".join("%04x" % c for c in s)


SEARCH = ["find", "rfind", "fof", "lof", "fnof", "lnof"]
HOWS = ["trim", "start", "end", "startnl", "endnl"]


class View:
    def __init__(self):
        self.t, self.o, self.n = [], 0, 0

    def get(self):
        return self.t[self.o:self.o + self.n]


def run(ctx):
    ctx.model_check("StrView_MC.tla", "StrView_MC5.cfg" if ctx.thorough else "StrView_MC.cfg", workers=8,
                    what="all short texts and patterns and every window on them")
    exe = ctx.build("strview")
    rnd = random.Random(ctx.seed * 53 + 23)
    ses = []

    def load(t, s, text, o, n, how):
        return ({"op": "load", "s": s, "text": list(text), "o": o, "n": n, "t": t},
                "load %d %d %d %s %d %d" % (t, s, how, tok(text), o, n))

    def search(t, s, q, how, p, w, dflt=False):
        if dflt:
            p = 0 if q in ("find", "fof", "fnof") else -1
        return ({"op": "search", "s": s, "q": q, "how": how, "p": p, "w": list(w), "t": t},
                "search %d %d %s %d %d %d %s" % (t, s, q, how, p, dflt, tok(w)))
    # every short text with every short pattern, looked for from everywhere
    alpha = [97, 98, 99]
    every = [(t, w) for k in range(4) for t in itertools.product(alpha[:2 + (k < 3)], repeat=k)
             for m in range(3) for w in itertools.product(alpha[:2], repeat=m)]
    rnd.shuffle(every)
    if not ctx.thorough:
        every = every[:110]
    for i in range(0, len(every), 12):
        t = (i // 12) % 4
        s = [({"op": "fresh", "t": t}, "fresh %d 0" % t)]
        for x, w in every[i:i + 12]:
            pre, post = [97] * rnd.randrange(2), [rnd.choice(alpha)] * rnd.randrange(2)
            s.append(load(t, 0, pre + list(x) + post, len(pre), len(x), rnd.randrange(2)))
            s.append(load(t, 1, list(w), 0, len(w), 2))
            for q in SEARCH:
                for p in [-1] + list(range(len(x) + 2)):
                    s.append(search(t, 0, q, rnd.choice([0, 1, 2, 3] + ([4] if len(w) == 1 else [])), p, w))
        ses.append(s)
    for i in range(600 if ctx.thorough else 120):
        t = i % 4
        hi = [200, 255, 128] if t == 0 else [0x4e2d, 0xffff, 0x7fff]
        al = rnd.choice([[97, 98], [97, 32, 9, 10, 98], [97, 98, 99] + hi, [97, 0, 98]])
        z = 0 in al
        v = [View(), View()]
        s = [({"op": "fresh", "t": t}, "fresh %d 0" % t)]

        def rl(k):
            n = rnd.choice([0, 1, 2, 3, 6, 12])
            text = [rnd.choice(al) for _ in range(n)]
            if i % 10 < 2:          # long ones, where little differs
                n = rnd.choice([130, 257, 270, 300])
                text = [97] * n
                for _ in range(rnd.randrange(4)):
                    text[rnd.randrange(n)] = rnd.choice(al)
                for _ in range(rnd.randrange(3)):
                    text[-rnd.randrange(1, 4)] = 98
            how = rnd.randrange(5)
            if how == 3 and z:
                how = 2
            o = rnd.randrange(n + 1)
            m = rnd.randrange(n - o + 1)
            if how in (2, 3):
                o, m = 0, n
            if how == 4:
                o = m = 0
            v[k].t, v[k].o, v[k].n = text, o, m
            s.append(load(t, k, text, o, m, how))
        rl(0)
        rl(1)
        for _ in range(30):
            k = rnd.randrange(2)
            a, b = v[k], v[1 - k]
            q = rnd.random()
            pos = lambda n: rnd.choice([-1, 0, n, n + 1, n + 7, rnd.randrange(n + 1)])
            if q < 0.1:
                rl(k)
            elif q < 0.25:
                w = rnd.choice(["prefix", "suffix", "resize"])
                n = rnd.choice([0, a.n, rnd.randrange(a.n + 1)])
                s.append(({"op": w, "s": k, "n": n, "t": t}, "%s %d %d %d" % (w, t, k, n)))
                if w == "prefix":
                    a.o += n
                    a.n -= n
                elif w == "suffix":
                    a.n -= n
                else:
                    a.n = n
            elif q < 0.33:
                p, n = pos(a.n), pos(a.n)
                if p > 3 and rnd.random() < .5:
                    p = rnd.randrange(3)
                s.append(({"op": "sub", "s": k, "p": p, "n": n, "t": t}, "sub %d %d %d %d" % (t, k, p, n)))
                if p != -1 and p <= a.n:
                    a.o += p
                    a.n = a.n - p if n == -1 else min(n, a.n - p)
            elif q < 0.36:
                v.reverse()
                s.append(({"op": "swap", "s": k, "t": t}, "swap %d %d %d %d %d" % (t, k, rnd.randrange(2), v[0].o, v[1].o)))
            elif q < 0.44:
                h = rnd.choice(HOWS)
                s.append(({"op": "trim", "s": k, "how": h, "t": t}, "trim %d %d %s" % (t, k, h)))
                g = a.get()
                bl = [32, 9] + ([10] if h.endswith("nl") else [])
                while g and h[:5] != "endnl"[:3] and h in ("trim", "start", "startnl") and g[0] in bl:
                    g = g[1:]
                    a.o += 1
                    a.n -= 1
                while g and h in ("trim", "end", "endnl") and g[-1] in bl:
                    g = g[:-1]
                    a.n -= 1
            elif q < 0.7:
                how = rnd.randrange(5)
                g = a.get()
                if rnd.random() < .5 and g:
                    x = rnd.randrange(len(g))
                    w = g[x:x + rnd.randrange(1, 4)]
                else:
                    w = [rnd.choice(al) for _ in range(rnd.randrange(4))]
                if how == 4:
                    w = [rnd.choice(al)]
                if how == 3 and z:
                    how = 2
                s.append(search(t, k, rnd.choice(SEARCH), how, pos(a.n), w, rnd.random() < .3 and how != 2))
            elif q < 0.85:
                how = rnd.randrange(4)
                g = a.get()
                w = list(g)
                if rnd.random() < .7:
                    w = w[:rnd.randrange(len(w) + 1)] + [rnd.choice(al) for _ in range(rnd.randrange(3))]
                if how == 3 and z:
                    how = 1
                p = rnd.choice([-2, pos(a.n), pos(a.n)])
                n = pos(a.n)
                p2, n2 = -2, 0
                if p != -2 and how < 2 and rnd.random() < .5:
                    m = len(w) if how else b.n
                    p2, n2 = pos(m), pos(m)
                s.append(({"op": "cmp", "s": k, "how": how, "p": p, "n": n, "p2": p2, "n2": n2, "w": w, "t": t},
                          "cmp %d %d %d %d %d %d %d %s" % (t, k, how, p, n, p2, n2, tok(w))))
            elif q < 0.9:
                how = rnd.randrange(3 if z else 5)
                s.append(({"op": "rel", "s": k, "t": t}, "rel %d %d %d" % (t, k, how)))
            elif q < 0.94:
                p = pos(a.n)
                s.append(({"op": "at", "s": k, "p": p, "t": t}, "at %d %d %d" % (t, k, p)))
            else:
                p, n = pos(a.n), pos(a.n)
                if rnd.random() < .5:
                    p = 0
                s.append(({"op": "copy", "s": k, "p": p, "n": n, "t": t}, "copy %d %d %d %d" % (t, k, p, n)))
        ses.append(s)
    ctx.conform(exe, "StrView_Trace.tla", "StrView_Trace.cfg", ses, "views", chunk=1000, par=8)
    ctx.sample({"session": [x for _, x in ses[-1]][:12]})
