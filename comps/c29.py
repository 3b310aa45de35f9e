"""C29: hashes of texts, four character codes, paddings."""
import random
from vlib.core import hx, le

WORDS = ["", "a", "bug", "ahoj", "nazdar", "seeyalater", "A very big thingy", "Position", "m_nodes", "DXT1",
         "twelve chars", "exactly twenty-four byte", "exactly twenty-four bytE", "x" * 36, "y" * 48, "ABCD", "DX10", "RBGB"]


def run(ctx):
    ctx.model_check("Hashes_MC.tla", "Hashes_MC32.cfg" if ctx.thorough else "Hashes_MC.cfg",
                    what="mixing and finishing of one byte words taken back; all short texts over three bytes")
    rnd = random.Random(ctx.seed)
    lits = [w.encode() for w in WORDS]
    for n in list(range(1, 27)) + [36, 47, 48, 49] + ([60, 72, 96, 100, 120] if ctx.thorough else []):
        lits.append(bytes(rnd.choice((rnd.randrange(1, 256), rnd.randrange(97, 123))) for _ in range(n)))
    lits += [bytes(rnd.randrange(128, 256) for _ in range(n)) for n in (1, 2, 4, 4, 4, 8, 12, 24)]
    with open(ctx.work + "/literals.inc", "w") as f:
        for w in lits:
            f.write("L(\"%s\"),\n" % "".join("\\%03o" % c for c in w))
    exe = ctx.build("hashes", flags=["-I" + ctx.work])
    ses = []
    for i, w in enumerate(lits):
        s = [({"op": "reset"}, "reset"), ({"op": "text", "s": list(w)}, "lit %d" % i)]
        if len(w) == 4:
            s.append(({"op": "code", "s": list(w)}, "litcc %d" % i))
        ses.append(s)

    def text(n):
        k = rnd.randrange(4)
        if k == 0:
            return [rnd.randrange(256) for _ in range(n)]
        if k == 1:
            return [rnd.choice((0, 0x7f, 0x80, 0xff)) for _ in range(n)]
        return [rnd.randrange(97, 123) for _ in range(n)]

    s = [({"op": "reset"}, "reset")]
    for n in list(range(0, 64)) + [72, 84, 96, 97, 120, 255, 256, 257, 2050] * (4 if ctx.thorough else 1):
        for _ in range(1 if n > 300 else 8 if ctx.thorough else 2):
            t = text(n)
            s.append(({"op": "text", "s": t}, "text %s %d" % (hx(t), rnd.randrange(5))))
        if n > 300:
            continue
        t, seed = text(n), le(rnd.getrandbits(32), 4)
        s.append(({"op": "seed", "s": t, "seed": seed}, "seed %s %s" % (hx(t), hx(seed))))
    for _ in range(2000 if ctx.thorough else 200):
        t = text(rnd.randrange(1, 30))
        u = list(t) if rnd.random() < 0.3 else text(rnd.randrange(0, 30))
        s.append(({"op": "pair", "s": t, "t": u}, "pair %s %s" % (hx(t), hx(u))))
        c = text(4)
        s.append(({"op": "code", "s": c}, "code " + hx(c)))
        k = rnd.randrange(64)
        al = 1 << k
        v = le(rnd.choice((0, 1, al - 1, al, al + 1, rnd.getrandbits(64), al * rnd.randrange(16))) % (1 << 64), 8)
        s.append(({"op": "pad", "v": v, "k": k}, "pad %s %d" % (hx(v), k)))
        w = rnd.choice((1, 2, 4, 8))
        k = rnd.randrange(8 * w)
        v = le(max(1, rnd.choice((1, 2, 3, 1 << k, (1 << k) - 1, (1 << k) | (1 << rnd.randrange(8 * w)), rnd.getrandbits(8 * w)))), w)
        s.append(({"op": "pow2", "v": v}, "pow2 " + hx(v)))
    for n in range(1, 64):
        s.append(({"op": "frac", "n": n}, "frac %d" % n))
    n = 100
    for i in range(1, len(s), n):
        ses.append([s[0]] + s[i:i + n])
    ctx.conform(exe, "Hashes_Trace.tla", "Hashes_Trace.cfg", ses, "hashes", chunk=300)
    ctx.sample({"session": [y for _, y in ses[-1]][:12]})
