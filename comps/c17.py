"""C17: paths split into parts."""
import itertools
import random

ASSUMPTIONS = ["paths contain no zero characters"]


def tok(s):
    return "x" + "".join("%04x" % c for c in s)


def run(ctx):
    ctx.model_check("PathInfo_MC.tla", "PathInfo_MC5.cfg" if ctx.thorough else "PathInfo_MC.cfg", workers=8,
                    what="every path and folder of few characters")
    exe = ctx.build("pathinfo")
    rnd = random.Random(ctx.seed * 37 + 17)
    ses = []

    def session(w, paths, folders=()):
        s = [({"op": "fresh"}, "fresh %d" % w)]
        for p in paths:
            s.append(({"op": "load", "s": list(p)}, "load %d %d %s" % (w, rnd.randrange(3), tok(p))))
            for f in folders(p) if folders else ():
                s.append(({"op": "branch", "f": list(f)}, "branch %d %s" % (w, tok(f))))
        ses.append(s)
    # every short path
    alpha = [97, 98, 46, 47, 92]
    n = 6 if ctx.thorough else 5
    every = [p for k in range(n + 1) for p in itertools.product(alpha, repeat=k)]
    for i in range(0, len(every), 500):
        session((i // 500) % 2, every[i:i + 500])

    def part(w):
        k = rnd.random()
        b = rnd.choice([b"home", b"a", b"work", b"homework", b"data.v2", b".git", b"..", b".", b"x y", b"", b"h"])
        b = list(b)
        if k < 0.2:
            b += [46] + [rnd.choice([112, 110, 103, 200 if not w else 0x4e2d]) for _ in range(rnd.randrange(4))]
        if k > 0.9:
            b += [rnd.choice([233, 255, 128]) if not w else rnd.choice([0x4e2d, 0xfffd, 0x2f00, 0x5c00, 0x2e00])]
        return b

    def joined(w, ps):
        s = []
        if rnd.random() < 0.6:
            s.append(rnd.choice([47, 92]))
        for i, p in enumerate(ps):
            if i:
                s.append(rnd.choice([47, 47, 92]))
            s += p
        if rnd.random() < 0.2:
            s.append(rnd.choice([47, 92]))
        return s
    for i in range(400 if ctx.thorough else 60):
        w = i % 2
        paths = []
        for _ in range(8):
            paths.append(joined(w, [part(w) for _ in range(rnd.randrange(7))]))
        if i % 4 < 2:       # long ones, of many parts or long names
            paths.append(joined(w, [part(w) for _ in range(rnd.choice([130, 300]))]))
            ps = [part(w) for _ in range(5)]
            for _ in range(2):
                ps.insert(rnd.randrange(6), [rnd.choice([97, 98, 120])] * rnd.choice([126, 254, 300, 1000]))
            paths.append(joined(w, ps))

        def folders(p, w=w):
            norm = [47 if c == 92 else c for c in p]
            ps = [list(x) for x in "".join(map(chr, norm)).split("/")]
            ps = [[ord(c) for c in x] for x in ps]
            r = []
            for _ in range(3):
                q = [part(w) for _ in range(rnd.randrange(4))]
                if rnd.random() < 0.7 and ps:
                    q.insert(rnd.randrange(len(q) + 1), rnd.choice(ps[:2]))
                if rnd.random() < 0.3 and ps:
                    q.insert(0, ps[0] + [100])
                r.append(joined(w, q) + ([47] if rnd.random() < .5 else []))
            return r
        session(w, paths, folders)
    ctx.conform(exe, "PathInfo_Trace.tla", "PathInfo_Trace.cfg", ses, "paths", chunk=900, par=8)
    ctx.sample({"session": [x for _, x in ses[-1]][:12]})
