"""C26: places of pixels in swizzled surfaces."""
import random


def run(ctx):
    ctx.model_check("Morton_MC.tla", "Morton_MC4.cfg" if ctx.thorough else "Morton_MC.cfg",
                    what="surfaces of all sides of up to four bits, filled pixel by pixel")
    exe = ctx.build("morton")
    rnd = random.Random(ctx.seed)
    ses = []
    for w in range(4, 15):
        for h in range(4, 15):
            pts = []
            for _ in range(200 if ctx.thorough else 40):
                p = [rnd.randrange(1 << b) for b in (w, h)]
                k = rnd.randrange(4)
                if k == 0:
                    p = [rnd.choice((0, 1 << rnd.randrange(b), (1 << b) - 1)) for b in (w, h)]
                pts.append(p)
            pts += [[1 << b, 0] for b in range(w)] + [[0, 1 << b] for b in range(h)] + [[(1 << w) - 1, (1 << h) - 1], [0, 0]]
            s = [({"op": "reset"}, "reset"),
                 ({"op": "points", "w": w, "h": h, "at": pts},
                  "points %d %d %s" % (w, h, " ".join("%d %d" % tuple(p) for p in pts)))]
            if w + h <= (12 if ctx.thorough else 9):
                for f in range(0, 1 << h, 8):
                    s.append(({"op": "rows", "w": w, "h": h, "from": f}, "rows %d %d %d 8" % (w, h, f)))
            elif w <= 7:
                f = rnd.randrange((1 << h) - 4)
                s.append(({"op": "rows", "w": w, "h": h, "from": f}, "rows %d %d %d 4" % (w, h, f)))
            ses.append(s)
    ctx.conform(exe, "Morton_Trace.tla", "Morton_Trace.cfg", ses, "surfaces", chunk=60)
    ctx.sample({"session": [y[:200] for _, y in ses[3]][:5]})
