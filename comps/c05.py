"""C05: packed bit field types."""
import os
import random
from vlib.core import hx, le

ASSUMPTIONS = ["types with at least two members (the library cannot instantiate fewer)"]
FIXED = {8: [[4, 4], [1, 7], [7, 1], [1] * 8, [3, 2], [2, 2, 2, 1]],
         16: [[8, 8], [1, 15], [15, 1], [2, 5, 3, 1, 2, 3], [9, 7], [3, 4], [1] * 16],
         32: [[31, 1], [1, 31], [16, 16], [8] * 4, [4, 2, 4, 4, 4, 4, 4, 4, 2], [17, 3], [5, 11, 16]],
         64: [[63, 1], [1, 63], [32, 32], [31, 33], [33, 31], [20, 20, 24], [16, 8, 40], [40, 10],
              [13, 50], [8] * 8, [1, 32, 31], [7, 49, 3, 5], [32, 8, 8]]}


def layouts(rnd, n):
    ls = [(nb, L) for nb in FIXED for L in FIXED[nb]]
    for _ in range(n):
        nb = rnd.choice((8, 16, 32, 64, 64))
        rest = nb
        L = []
        while rest and len(L) < 12 and (len(L) < 2 or rnd.random() < 0.85):
            s = rnd.randrange(1, max(2, rest if len(L) else rest - 1))
            if rnd.random() < 0.5:
                s = min(s, rnd.randrange(1, 9))
            if not L:
                s = min(s, nb - 1)
            L.append(s)
            rest -= s
        ls.append((nb, L))
    return ls


def word(rnd, nb):
    t = rnd.random()
    if t < 0.15:
        v = (1 << nb) - 1
    elif t < 0.25:
        v = 0
    elif t < 0.4:
        v = 1 << rnd.randrange(nb)
    else:
        v = rnd.getrandbits(nb)
    return le(v, nb // 8)


def run(ctx):
    ctx.model_check("BitFields_MC.tla", "BitFields_MC.cfg",
                    what="every layout of up to 4 members and every value of a 6 bit storage (two 3 bit bytes)")
    rnd = random.Random(ctx.seed)
    ls = layouts(rnd, 60 if ctx.thorough else 14)
    with open(os.path.join(ctx.work, "layouts.inc"), "w") as f:
        for i, (nb, L) in enumerate(ls):
            f.write("BF(%d, uint%d, %d, %s)\n" % (i, nb, len(L), ",".join(map(str, L))))
    exe = ctx.build("bitfields", flags=["-I" + ctx.work])
    ses = []
    for i, (nb, L) in enumerate(ls):
        for rep in range(12 if ctx.thorough else 4):
            v = word(rnd, nb)
            s = [({"op": "reset", "lay": L, "nb": nb, "v": v}, "reset %d %s" % (i, hx(v)))]
            order = list(range(1, len(L) + 1))
            rnd.shuffle(order)
            for m in order:            # every member is set at least once
                w = word(rnd, nb)
                s.append(({"op": "set", "i": m, "w": w}, "set %d %s" % (m, hx(w))))
            for _ in range(8):
                t = rnd.random()
                if t < 0.45:
                    m = rnd.randrange(1, len(L) + 1)
                    w = word(rnd, nb)
                    s.append(({"op": "set", "i": m, "w": w}, "set %d %s" % (m, hx(w))))
                elif t < 0.6:
                    w = word(rnd, nb)
                    s.append(({"op": "ass", "w": w}, "ass %s" % hx(w)))
                elif t < 0.85:
                    o = rnd.randrange(2)
                    s.append(({"op": "swap", "out": o}, "swap %d" % o))
                else:
                    s.append(({"op": "io"}, "io"))
            s.append(({"op": "swap", "out": 1}, "swap 1"))
            s.append(({"op": "swap", "out": 0}, "swap 0"))
            s.append(({"op": "io"}, "io"))
            ses.append(s)
    s = [({"op": "reset", "lay": ls[0][1], "nb": ls[0][0], "v": [0] * (ls[0][0] // 8)}, "reset 0 " + hx([0] * (ls[0][0] // 8)))]
    for nb in FIXED:
        places = [(p, z) for p in range(nb) for z in range(1, nb - p + 1)]
        for p, z in places if len(places) < 40 or ctx.thorough else {(0, 1), (0, nb), (nb - 1, 1), (0, nb - 1), (1, nb - 1)} | set(rnd.sample(places, 40)):
            s.append(({"op": "mask", "nb": nb, "pos": p, "size": z}, "mask %d %d %d" % (nb, p, z)))
    ses.append(s)
    ctx.conform(exe, "BitFields_Trace.tla", "BitFields_Trace.cfg", ses, "bitfields", chunk=600, par=8)
    ctx.sample({"layouts": ls[-3:], "session": [x for _, x in ses[-1]]})
