"""C03: variable-length integers."""
import random
from vlib.core import hx, le

ASSUMPTIONS = ["the stream under the reader and writer is a std::stringstream"]


def boundary(sg):
    vs = set()
    for b in range(64):
        for d in (-2, -1, 0, 1, 2):
            vs.add(((1 << b) + d) & (2**64 - 1))
            vs.add((-(1 << b) + d) & (2**64 - 1))
    return sorted(vs)


def run(ctx):
    ctx.model_check("Base128_MC.tla", "Base128_MC.cfg", what="G=2,N=2: every ordered pair of words")
    ctx.model_check("Base128_MC.tla", "Base128_MC1.cfg" if ctx.thorough else "Base128_MC2.cfg",
                    what="every word of a scaled codec")
    exe = ctx.build("base128")
    rnd = random.Random(ctx.seed)
    sessions = []

    def w(sg, v):
        b = le(v, 8)
        return ({"op": "w", "sg": sg, "v": b}, "w %d %s" % (sg, hx(b)))

    def r(sg):
        return ({"op": "r", "sg": sg}, "r %d" % sg)
    reset = ({"op": "reset"}, "reset")
    # boundary values: each alone, then in a stream with neighbours
    for sg in (0, 1):
        for v in boundary(sg):
            sessions.append([reset, w(sg, v), r(sg)])
    n = 6000 if ctx.thorough else 500
    for _ in range(n):
        s = [reset]
        q = []
        for _ in range(rnd.randrange(2, 14)):
            if q and rnd.random() < 0.45:
                s.append(r(q.pop(0)))
            else:
                sg = rnd.randrange(2)
                bits = rnd.randrange(0, 65)
                v = rnd.getrandbits(64) >> (64 - bits) if bits else 0
                if rnd.random() < 0.5:
                    v = ~v
                if rnd.random() < 0.2:
                    v = rnd.choice(boundary(1))
                s.append(w(sg, v))
                q.append(sg)
        while q:
            s.append(r(q.pop(0)))
        sessions.append(s)
    # bytes no encoder wrote: non-minimal forms, trailing data
    for _ in range(n * 2):
        k = rnd.randrange(0, 9)
        b = [rnd.randrange(128, 256) for _ in range(k)] + \
            [rnd.randrange(0, 128) if k < 8 else rnd.randrange(256)] + \
            [rnd.randrange(256) for _ in range(rnd.randrange(1, 4))]
        sg = rnd.randrange(2)
        sessions.append([reset, ({"op": "raw", "sg": sg, "b": b}, "raw %d %s" % (sg, hx(b)))])
    ctx.conform(exe, "Base128_Trace.tla", "Base128_Trace.cfg", sessions, "base128", chunk=2500)
    ctx.sample({"session": [l for _, l in sessions[-n * 2 - 1]]})
    ctx.sample({"boundary words": len(boundary(1)), "example": hx(le(boundary(1)[-1], 8))})
