"""C06: flag sets."""
import random
from vlib.core import hx, le

KINDS = {"E8": 8, "E16": 16, "E32": 32, "E64": 64, "P64": 64, "EB64": 64, "EB16": 16}


def run(ctx):
    ctx.model_check("FlagSet_MC.tla", "FlagSet_MC.cfg", what="two objects of five flags")
    exe = ctx.build("flagset")
    rnd = random.Random(ctx.seed)
    ses = []
    for k, nb in KINDS.items():
        for rep in range(60 if ctx.thorough else 8):
            s = [({"op": "reset", "nb": nb}, "reset " + k)]
            fl = list(range(nb))
            rnd.shuffle(fl)
            if rep == 0:               # every flag once: set, cleared, set again
                for f in fl:
                    s.append(({"op": "add", "f": f}, "add %d" % f))
                for f in fl:
                    s.append(({"op": "sub", "f": f}, "sub %d" % f))
                for f in fl:
                    s.append(({"op": "ctor", "fs": [f]}, "ctor 1 %d" % f))
            for _ in range(40):
                t = rnd.random()
                f = rnd.choice((0, nb - 1, nb // 2 - 1, nb // 2, rnd.randrange(nb), rnd.randrange(nb)))
                if t < 0.3:
                    on = rnd.randrange(2)
                    s.append(({"op": "set", "f": f, "on": on}, "set %d %d" % (f, on)))
                elif t < 0.5:
                    o = rnd.choice(("add", "sub"))
                    s.append(({"op": o, "f": f}, "%s %d" % (o, f)))
                elif t < 0.7:
                    o = rnd.choice(("ctor", "ext"))
                    fs = [rnd.randrange(nb) for _ in range(rnd.randrange(0, 5))]
                    s.append(({"op": o, "fs": fs}, "%s %d %s" % (o, len(fs), " ".join(map(str, fs)))))
                elif t < 0.8:
                    w = le(rnd.getrandbits(nb), nb // 8)
                    s.append(({"op": "raw", "w": w}, "raw " + hx(w)))
                elif t < 0.9:
                    s.append(({"op": "copy"}, "copy"))
                else:
                    s.append(({"op": "xch"}, "xch"))
            ses.append(s)
    ctx.conform(exe, "FlagSet_Trace.tla", "FlagSet_Trace.cfg", ses, "flags", chunk=800)
    ctx.sample({"session": [x for _, x in ses[-1]][:20]})
