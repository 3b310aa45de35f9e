"""C08: reading members of reflected objects, by every path."""
import random
from vlib import reflops

ASSUMPTIONS = [
    "exactness of printed floating point values is checked on multiples of 1/16 of up to 6 (12) digits; "
    "for any other value that the printed text is stable and within 1e-5",
    "items of class type arrays are at most 255 bytes; no arrays of arrays"]
OPS = (["get"] * 5 + ["getsub"] * 5 + ["getel"] * 4 + ["pair"] * 4 + ["info"] * 2 + ["rt"] * 4 + ["sub"] * 3 +
       ["seti", "setu", "setf"] * 2 + ["raw"] * 4 + ["rtf"] * 2)


def run(ctx):
    ctx.model_check("Reflect_MC.tla", "Reflect_MC3.cfg" if ctx.thorough else "Reflect_MC.cfg", workers=8,
                    what="every short text into every kind of member, printed and stored again")
    rnd = random.Random(ctx.seed * 37 + 8)
    g, exe = reflops.build(ctx, rnd, 40 if ctx.thorough else 16, 10 if ctx.thorough else 6)
    ses = []
    for i, c in enumerate(g.classes):
        for rep in range((12 if ctx.thorough else 3) if not reflops.large(c) else 2):
            cc = reflops.Calls(rnd, g)
            sch = c["sch"]
            s = [reflops.reset(g, i, rep % 3)]
            for k in range(1 if sch["bf"] else len(sch["fields"])):
                s.append(cc.raw(sch, k))
            for k in range(len(sch["fields"])):
                cc.force = k
                for op in ("get", "rt", "pair", "info"):
                    s.append(cc.call(sch, op))
            cc.force = None
            for _ in range(40 if not reflops.large(c) else 6):
                op = rnd.choice(OPS)
                if op == "raw":
                    s.append(cc.raw(sch))
                elif op == "rtf":
                    s += cc.rtf(sch)
                else:
                    s.append(cc.call(sch, op))
            ses.append(s)
            if rep == 0 and not reflops.large(c):
                ses.append([reflops.reset(g, i, 1)] + cc.sweep(c["sch"], True))
    ctx.conform(exe, "Reflect_Trace.tla", "Reflect_Trace.cfg", ses, "get", chunk=500, par=8)
    ctx.sample({"session": [x for _, x in ses[-1]][:20]})
