"""C04: swapping the byte order of values in place."""
import random
from vlib.core import hx


def s(n):
    return {"k": "s", "n": n}


def x(n):
    return {"k": "x", "n": n}


def a(n, t):
    return {"k": "a", "n": n, "t": t}


PLAIN = {"k": "c", "ts": [s(2), s(4), a(2, s(8)), s(2), s(4)]}
TAG = {"k": "c", "ts": [x(1), s(4), x(3)]}
WAY = {"k": "d", "ts": [s(4), x(1), s(2)]}
NEST = {"k": "d", "ts": [WAY, PLAIN, a(2, WAY), a(3, s(8)), a(2, TAG)]}
TYPES = {"u16": s(2), "i16": s(2), "u32": s(4), "i32": s(4), "u64": s(8), "i64": s(8), "f32": s(4), "f64": s(8),
         "e2": s(2), "e4": s(4), "e8": s(8), "c16": s(2), "c32": s(4), "wc": s(4), "sz": s(8), "long": s(8),
         "plain": PLAIN, "tag": TAG, "way": WAY, "nest": NEST, "same": x(5), "raw2": s(2), "raw4": s(4),
         "raw8": s(8), "derived": PLAIN, "union": s(4), "v2": a(2, s(4)), "v3": a(3, s(4)), "v4": a(4, s(4)),
         "sv2": a(2, s(2)), "usv3": a(3, s(2)), "sv4": a(4, s(2)), "uiv3": a(3, s(4)), "iv2": a(2, s(4)),
         "iv4": a(4, s(4)), "cv2": x(2), "ucv3": x(3), "ucv4": x(4), "d3": a(3, s(8)), "l4": a(4, s(8)),
         "v4s": a(4, s(4)), "iv4s": a(4, s(4)), "uiv4s": a(4, s(4)), "m44": a(16, s(4))}
AS = {"u16": 2, "i16": 2, "u32": 4, "f32": 4, "u64": 8, "f64": 8}


def size(t):
    if t["k"] in "sx":
        return t["n"]
    if t["k"] == "a":
        return t["n"] * size(t["t"])
    return sum(size(u) for u in t["ts"])


def run(ctx):
    ctx.model_check("Swap_MC.tla", "Swap_MCd.cfg" if ctx.thorough else "Swap_MC.cfg", what="types of two levels, four swaps")
    exe = ctx.build("swap", ["datas/matrix44.cpp"])
    rnd = random.Random(ctx.seed)
    ses = []
    for name, t0 in TYPES.items():
        for n in (0, 1, 3, 5):
            name1, t = (name, t0) if n == 0 else ("%s*%d" % (name, n), a(n, t0))
            for rep in range(12 if ctx.thorough else 2):
                S = [({"op": "reset"}, "reset")]
                m = [rnd.randrange(256) for _ in range(size(t))]
                if rep % 4 == 1:        # bit patterns that are special as floating point
                    m = [rnd.choice((0, 0x7f, 0x80, 0xff, 0xc0, 1)) for _ in m]
                S.append(({"op": "set", "t": t, "m": m}, "set %s %s" % (name1, hx(m))))
                for _ in range(rnd.choice((1, 2, 3, 4))):
                    w = rnd.randrange(3)
                    if rnd.random() < 0.3 and len(m) < 250:
                        e = rnd.choice(list(AS))
                        S.append(({"op": "as", "n": AS[e]}, "as " + e))
                    else:               # way 2: left out, which is inwards
                        S.append(({"op": "swap", "way": w == 1}, "swap %d" % w))
                ses.append(S)
    ctx.conform(exe, "Swap_Trace.tla", "Swap_Trace.cfg", ses, "swap", chunk=600)
    ctx.sample({"session": [y for _, y in ses[-1]]})
