"""C27: texture headers."""
import random
import struct

NAMES = ("DXT1 DXT2 DXT3 DXT4 DXT5 BC4U BC4S BC5U BC5S UYVY YUY2 ATI1 ATI2 DX10 A2B10G10R10 A8R8G8B8 A1R5G5B5 A4R4G4B4 A8L8 X8R8G8B8 "
         "G16R16 R8G8B8 R5G6B5 L16 L8 A8 RBGB GRGB").split()
EXTRAS = "Pitch LinearSize Depth CubeMap PositiveX NegativeX PositiveY NegativeY PositiveZ NegativeZ Volume CubeTexture".split()
VIDEO = set(range(103, 115)) | {116, 117, 118}
OTHER = [(0x41, 0, 32, 0xff, 0xff00, 0xff0000, 0xff000000), (0x41, 0, 32, 0xff, 0xff00, 0xff0000, 0), (0x41, 0, 16, 0xf, 0xf0, 0xf00, 0xf000)]
NUMS = (36, 110, 111, 112, 113, 114, 115, 116)
BPP = {36: 64, 110: 64, 111: 16, 112: 32, 113: 64, 114: 32, 115: 64, 116: 128}


def run(ctx):
    ctx.model_check("Dds_MC.tla", "Dds_MC17.cfg" if ctx.thorough else "Dds_MC.cfg", what="headers of all formats and of small sides going through two changes")
    exe = ctx.build("dds")
    rnd = random.Random(ctx.seed)
    ses = []

    def new():
        return [({"op": "reset"}, "reset")]

    def do(s, op, *a, **kw):
        d = {"op": op}
        d.update(kw)
        s.append((d, " ".join([op] + [str(v) for v in a])))

    def pf(s, flags, code, bpp, r=0, g=0, b=0, a=0):
        v = struct.pack("<8I", 32, flags, code, bpp, r, g, b, a)
        do(s, "pf", "x" + v.hex(), pf=list(v))

    def fmt(s, f):
        do(s, "fmt", f, f=f)

    def dims(s, w=None, h=None):
        def side():
            return rnd.choice((1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 30, 64, 100, 255, 256, 257, 640, 1000, 1024, 1920, 2048, 4095, 4096, 8192, 16384,
                               rnd.randrange(1, 300), rnd.randrange(1, 5000), 1 << rnd.randrange(15)))
        w, h = w or side(), h or side()
        do(s, "dims", w, h, w=w, h=h)
        return w, h

    def sizes(s, bits=128):                # dimensions for which the whole is of less than two gigabytes
        while True:
            w, h = (rnd.choice((1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 30, 64, 100, 255, 256, 257, 640, 1000, 1024, 1920, 2048, 4096, 8192, 16384,
                                rnd.randrange(1, 300), rnd.randrange(1, 5000), 1 << rnd.randrange(15))) for _ in "wh")
            if ((w + 3) & ~3) * ((h + 3) & ~3) * bits // 8 * 4 // 3 < 2 ** 31 - 2000:
                break
        dims(s, w, h)
        full = max(w, h).bit_length()
        n = rnd.choice((0, 1, full, full, full + 1, rnd.randrange(1, full + 1), 15, rnd.choice((16, 17, 20, 31))))
        do(s, "mips", n, n=n)
        do(s, "sizes")

    s = new()
    do(s, "block")
    dims(s, 6, 9)
    for n in NAMES:
        do(s, "named", n, name=n)
        for m in (n, rnd.choice(NAMES)):
            do(s, "same", m, name=m)
        do(s, "bpp")
        do(s, "sizes")
    ses.append(s)
    for f in list(range(0, 119)) + [119, 120, 130, 190]:                     # every format, told every way
        s = new()
        for force in (0, 2, 1):
            for alpha in (0, 2, 1):
                fmt(s, f)
                do(s, "alpha", alpha, a=alpha)
                do(s, "to", force, force=force & 1)
                if f not in VIDEO:
                    do(s, "bpp")
                do(s, "from")
                do(s, "from")
                do(s, "to", 1, force=1)
        if f not in VIDEO and f != 66:
            fmt(s, f)
            do(s, "bpp")
            for _ in range(3 if ctx.thorough else 2):
                sizes(s)
            do(s, "bpp")
        ses.append(s)
    for n in NAMES + list(NUMS):                                              # every older telling, with its bits told and not
        s = new()
        for z in (0, 1):
            if isinstance(n, int):
                pf(s, 4, n, BPP[n])
            else:
                do(s, "named", n, name=n)
            if z:
                do(s, "zero")
                do(s, "bpp")
            do(s, "nofmt")
            sizes(s)
            do(s, "alpha", rnd.randrange(3), a=0)
            s[-1][0]["a"] = int(s[-1][1].split()[1])
            do(s, "from")
            if n != "YUY2" and n != "UYVY":
                do(s, "bpp")
            do(s, "to", 0, force=0)
            do(s, "from")
            do(s, "to", 1, force=1)
        ses.append(s)
    s = new()
    for n in EXTRAS + EXTRAS[::-1]:
        do(s, "set", n, 1, name=n, v=1)
    for n in EXTRAS:
        do(s, "set", n, 0, name=n, v=0)
    ses.append(s)
    s = new()
    for o in OTHER:
        pf(s, *o)
        do(s, "from")
        do(s, "to", 1, force=1)
        for k in range(7):                                                    # next to it: nothing that is known
            v = list(o)
            if k != 1:
                v[k] ^= 1 << rnd.randrange(4, 8)
                pf(s, *v)
                do(s, "from")
    ses.append(s)
    for _ in range(150 if ctx.thorough else 25):                              # histories
        s = new()
        dims(s, 16, 8)
        for _ in range(40):
            k = rnd.randrange(11)
            if k == 0:
                f = rnd.choice((rnd.randrange(119), rnd.choice((24, 28, 35, 65, 71, 74, 75, 77, 80, 83, 85, 87, 115, 11, 2))))
                if f in VIDEO or f == 66:
                    f = 98
                fmt(s, f)
            elif k == 1:
                n = rnd.choice([n for n in NAMES if n not in ("YUY2",)])
                do(s, "named", n, name=n)
            elif k == 2:
                a = rnd.randrange(5)
                do(s, "alpha", a, a=a)
            elif k == 3:
                n = rnd.choice(NUMS)
                pf(s, 4, n, rnd.choice((0, BPP[n])))
            elif k == 4:
                do(s, "from")
            elif k == 5:
                fo = rnd.randrange(3)
                do(s, "to", fo, force=fo & 1)
            elif k == 6:
                do(s, "bpp")
            elif k == 7:
                n = rnd.choice((0, 1, 2, 5, 12))
                do(s, "mips", n, n=n)
            elif k == 8:
                sizes(s)
            elif k == 10:
                n, v = rnd.choice(EXTRAS), rnd.choice((0, 1, 1))
                do(s, "set", n, v, name=n, v=v)
            else:
                n = rnd.choice(NAMES)
                do(s, "same", n, name=n)
        ses.append(s)
    ctx.conform(exe, "Dds_Trace.tla", "Dds_Trace.cfg", ses, "texture headers", chunk=500)
    ctx.sample({"session": [y[:200] for _, y in ses[5]][:8]})
