"""C20: encoders of byte texts."""
import random
from vlib.core import hx

MODES = ["ECB", "CBC", "PCBC", "CFB", "OFB"]


def run(ctx):
    ctx.model_check("BlockModes_MC.tla", "BlockModes_MC5.cfg" if ctx.thorough else "BlockModes_MC.cfg",
                    what="every cipher of two bit blocks, every mode, vector and short text")
    exe = ctx.build("cipher", ["datas/encrypt/blowfish.cpp"])
    rnd = random.Random(ctx.seed)

    def blob(n):
        return [rnd.choice((rnd.randrange(256), rnd.choice((0, 0x7f, 0x80, 0xff)))) for _ in range(n)]

    def text(most=64):
        if most > 64 and rnd.random() < 0.5:
            return blob(rnd.randrange(64, most))
        n = rnd.choice((0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 40, rnd.randrange(64), rnd.randrange(64)))
        t = blob(n)
        if n >= 16 and rnd.random() < 0.3:         # repeated blocks
            t = (t[:8] * 9)[:n]
        return t

    ses = []
    for rep in range(48 if ctx.thorough else 12):
        for alg in ("bf", "bf2", "xor"):
            s = [({"op": "reset", "alg": alg}, "reset " + alg)]

            def setkey():
                n = rnd.choice((1, 2, 3, 4, 5, 8, 16, 56, 71, 72, 73, 100, rnd.randrange(1, 80)))
                k = blob(n)
                if rep % 3 == 0:
                    k = [c % 128 for c in k]
                s.append(({"op": "key", "k": k}, "key %s %d" % (hx(k), rnd.randrange(2))))
            if alg != "xor":
                md = rnd.choice(MODES)
                v = blob(8)
                if rnd.random() < 0.5:
                    s.append(({"op": "vec", "v": v}, "vec " + hx(v)))
                s.append(({"op": "mode", "m": md}, "mode " + md))
                setkey()
                if rnd.random() < 0.7 or md == "ECB":
                    s.append(({"op": "vec", "v": v}, "vec " + hx(v)))
            else:
                setkey()
            keys = 1
            for _ in range(40):
                k = rnd.random()
                t = text(300 if alg == "xor" else 64)
                if k < 0.2:
                    s.append(({"op": "enc", "t": t}, "enc %s %d" % (hx(t), rnd.choice((8, 8, 3)))))
                elif k < 0.4:
                    s.append(({"op": "dec", "t": t}, "dec %s %d" % (hx(t), rnd.choice((8, 8, 5)))))
                elif k < 0.55:
                    s.append(({"op": "back", "t": t}, "back " + hx(t)))
                elif k < 0.6:
                    o = rnd.choice(("enc", "dec"))
                    s.append(({"op": o, "t": t}, "par %s %s" % (o, hx(t))))
                elif alg == "xor":
                    if k < 0.75:
                        setkey()
                elif k < 0.75:
                    m = rnd.choice(MODES)
                    o = rnd.choice(("encas", "decas"))
                    s.append(({"op": o, "m": m, "t": t}, "%s %s %s" % (o, m, hx(t))))
                elif k < 0.87:
                    m = rnd.choice(MODES)
                    s.append(({"op": "mode", "m": m}, "mode " + m))
                elif k < 0.89:
                    n = rnd.randrange(3)
                    s.append(({"op": "enable", "n": n}, "enable %d" % n))
                elif k < 0.96:
                    v = blob(8)
                    s.append(({"op": "vec", "v": v}, "vec " + hx(v)))
                elif keys < 2:
                    keys += 1
                    setkey()
            # long texts
            if alg == "xor" and rep % 6 == 0:
                t = blob(66000)
                s.append(({"op": "enc", "t": t}, "enc %s 8" % hx(t)))
            elif alg != "xor":
                m = MODES[rep % 5]
                t = blob(rnd.choice((1030, 2064, 2100)))
                s.append(({"op": "vec", "v": t[:8]}, "vec " + hx(t[:8])))
                s.append(({"op": "encas", "m": m, "t": t}, "encas %s %s" % (m, hx(t))))
                s.append(({"op": "decas", "m": m, "t": t}, "decas %s %s" % (m, hx(t))))
            ses.append(s)
    ctx.conform(exe, "Cipher_Trace.tla", "Cipher_Trace.cfg", ses, "cipher", chunk=130)
    ctx.sample({"session": [y for _, y in ses[-2]][:14]})
