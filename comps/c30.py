"""C30: small floating point numbers."""
import random

FMTS = {"h": (10, 5, 1), "10.5.1": (10, 5, 1), "6.5.0": (6, 5, 0), "5.5.0": (5, 5, 0), "5.5.1": (5, 5, 1),
        "2.5.1": (2, 5, 1), "3.4.1": (3, 4, 1), "12.6.0": (12, 6, 0), "8.7.1": (8, 7, 1), "10.5.0": (10, 5, 0),
        "4.3.0": (4, 3, 0)}


def run(ctx):
    ctx.model_check("SmallFloat_MC.tla", "SmallFloat_MC5.cfg" if ctx.thorough else "SmallFloat_MC.cfg",
                    what="all codes of formats of up to four mantissa and exponent bits")
    exe = ctx.build("smallfloat")
    rnd = random.Random(ctx.seed)
    ses = []
    for name, (m, e, sg) in FMTS.items():
        t = {"m": m, "e": e, "sg": sg}
        total = 1 << (m + e + sg)
        step = min(512, total)
        every = list(range(0, total, step))
        if not ctx.thorough and name in ("10.5.1", "12.6.0", "8.7.1"):     # half is told in full
            every = rnd.sample(every, 16)
        for f in every:
            ses.append([({"op": "reset"}, "reset"), ({"op": "codes", "t": t, "from": f}, "codes %s %d %d" % (name, f, step))])
        bias = (1 << (e - 1)) - 1
        s = [({"op": "reset"}, "reset")]

        def flt():
            k = rnd.random()
            lo, hi = max(1, 127 - bias - m - 2), 127 + bias + 2
            x = rnd.choice((rnd.randrange(lo, min(hi, 254) + 1), rnd.randrange(256), 127 - bias, 127 - bias + 1, 127, 126,
                            127 - bias - m, 127 + bias, 127 + bias + 1, 0, 255))
            f = rnd.choice((0, 1, (1 << 23) - 1, 1 << 22, rnd.getrandbits(23), rnd.getrandbits(m) << (23 - m),
                            (rnd.getrandbits(m) << (23 - m)) + rnd.choice((1, (1 << (22 - m)), (1 << (22 - m)) - 1, (1 << (22 - m)) + 1))))
            return [rnd.randrange(2) if sg else 0, x & 255, f & ((1 << 23) - 1)]
        for _ in range(120 if ctx.thorough else 12):
            fs = [flt() for _ in range(32)]
            s.append(({"op": "enc", "t": t, "fs": fs}, "enc %s %s" % (name, " ".join("%d %d %d" % tuple(f) for f in fs))))
        ses.append(s)
    s = [({"op": "reset"}, "reset")]
    for _ in range(2000 if ctx.thorough else 300):
        hi, lo = (rnd.choice((0, 1, 0xffff, 0x8000, 0x7fff, 0x003f, 0xffc0, rnd.getrandbits(16), rnd.getrandbits(16))) for _ in "ab")
        s.append(({"op": "pack", "hi": hi, "lo": lo}, "pack %d %d" % (hi, lo)))
    ses.append(s)
    ctx.conform(exe, "SmallFloat_Trace.tla", "SmallFloat_Trace.cfg", ses, "small floats", chunk=60)
    ctx.sample({"session": [y[:200] for _, y in ses[-2]][:5]})
