"""C07: text stored into members of reflected objects."""
import random
from vlib import reflops

ASSUMPTIONS = [
    "number texts: optional blanks and minus, decimal or 0x digits, anything behind; no plus sign",
    "floating point texts are exact multiples of 1/16, infinities or far beyond the range",
    "items of class type arrays are at most 255 bytes; no arrays of arrays"]
OPS = ["set"] * 12 + ["setsub"] * 5 + ["setel"] * 3 + ["sub"] * 2 + ["get"]


def run(ctx):
    ctx.model_check("Reflect_MC.tla", "Reflect_MC3.cfg" if ctx.thorough else "Reflect_MC.cfg", workers=8,
                    what="every text of up to 3 characters into every kind of member")
    rnd = random.Random(ctx.seed * 31 + 7)
    g, exe = reflops.build(ctx, rnd, 40 if ctx.thorough else 16, 10 if ctx.thorough else 6)
    ses = []
    for i, c in enumerate(g.classes):
        for rep in range((12 if ctx.thorough else 3) if not reflops.large(c) else 2):
            cc = reflops.Calls(rnd, g)
            s = [reflops.reset(g, i, rep % 3)]
            for k in range(len(c["sch"]["fields"])):
                if rnd.random() < 0.7 and not c["sch"]["bf"]:
                    s.append(cc.raw(c["sch"], k))
            if c["sch"]["bf"]:
                s.append(cc.raw(c["sch"]))
            for k in range(len(c["sch"]["fields"])):
                cc.force = k
                for _ in range(5 if reflops.large(c) else 2):
                    s.append(cc.call(c["sch"], "set"))
            cc.force = None
            for _ in range(30 if not reflops.large(c) else 6):
                s.append(cc.call(c["sch"], rnd.choice(OPS)))
            ses.append(s)
            if rep == 0 and not reflops.large(c):
                ses.append([reflops.reset(g, i, 1)] + cc.sweep(c["sch"], False))
                ses.append([reflops.reset(g, i, 2)] + cc.edges(c["sch"]))
    ctx.conform(exe, "Reflect_Trace.tla", "Reflect_Trace.cfg", ses, "set", chunk=400, par=8)
    ctx.sample({"session": [x for _, x in ses[-1]][:20]})
