"""C35: headers of sound files."""
import random, struct

KINDS = dict(riff=12, fmt=24, msadpcm=28, fact=12, smpl=44, loop=24, fwse=1024, msf=64, vag=64, xvag=32, fmat=36)


def run(ctx):
    ctx.model_check("Riff_MC.tla", "Riff_MC4.cfg" if ctx.thorough else "Riff_MC.cfg",
                    what="files of up to %d chunks walked over" % (4 if ctx.thorough else 3))
    exe = ctx.build("riff")
    rnd = random.Random(ctx.seed)
    hx = lambda b: "x" + bytes(b).hex()
    rb = lambda n: [rnd.choice((0, 255, 128, 127, rnd.randrange(256))) if rnd.random() < .3 else rnd.randrange(256) for _ in range(n)]
    le = lambda v, n=4: list((v % (1 << 8 * n)).to_bytes(n, "little"))
    ses = []
    for _ in range(400 if ctx.thorough else 80):
        s = [({"op": "reset"}, "reset")]
        for v in [rnd.randrange(1 << rnd.randrange(4, 33)) for _ in range(4)] + [12, (1 << 32) - 1, 44, 1 << 31]:
            s.append(({"op": "riff", "size": le(v)}, "riff %d" % v))
            s.append(({"op": "data", "size": le(v)}, "data %d" % v))
        for f in [0, 1, 2, 6, 7, 0x11, 0x31, 0x50, rnd.randrange(65536)]:
            s.append(({"op": "fmt", "f": f}, "fmt %d" % f))
        for _ in range(8):
            ch, bits, rate = rnd.choice((1, 2, 3, 6, 8, 255)), rnd.choice((8, 16, 24, 32, 64)), rnd.choice((8000, 22050, 44100, 48000, 192000, rnd.randrange(1 << 24)))
            b = list(b"fmt ") + le(16) + le(rnd.choice((0, 1, 6, 7)), 2) + le(ch, 2) + le(rate) + rb(6) + le(bits, 2)
            s.append(({"op": "calc", "file": b}, "calc " + hx(b)))
        for _ in range(4):
            body = []
            for _ in range(rnd.randrange(0, 7)):
                i = rnd.choice([b"fmt ", b"data", b"fact", b"smpl", b"LIST", b"cue ", b"RIFF", b"Data", b"data"])
                d = rb(2 * rnd.choice((0, 1, 2, 4, 8, rnd.randrange(60))))
                if rnd.random() < .2:
                    d = (list(b"data") + le(rnd.randrange(20)) + d)
                body += list(i) + le(len(d)) + d
            f = list(b"RIFF") + le(len(body) + 4) + list(b"WAVE") + body
            s.append(({"op": "walk", "file": f}, "walk " + hx(f)))
        n = rnd.randrange(0, 5)
        f = list(b"smpl") + le(36 + 24 * n) + rb(28) + le(n) + le(24 * n) + rb(24 * n)
        s.append(({"op": "loops", "file": f, "n": n}, "loops " + hx(f)))
        for k, n in KINDS.items():
            b = rb(n)
            s.append(({"op": "read", "kind": k, "file": b}, "read %s %s" % (k, hx(b))))
        ses.append(s)
    ctx.conform(exe, "Riff_Trace.tla", "Riff_Trace.cfg", ses, "sound files", chunk=10)
    ctx.sample({"session": [y[:200] for _, y in ses[3]][:8]})
