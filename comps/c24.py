"""C24: text in units of one, two and four bytes."""
import random

CHARS = (0x41, 0x7e, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400,
         0x1f600, 0xfffff, 0x100000, 0x10ffff)
BYTES = (0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xff)
HALVES = (0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff)
WIDES = (0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, -0x80000000, -1)
HELPS = ("-h", "-?", "/?", "--help", "-H", "-help", "--h", "/h", "h", "", "--help ", " -h", "?", "-h\0", "--Help", "--hel", "--helps", "-", "/")


def enc16(cs):
    b = "".join(map(chr, cs)).encode("utf-16-le")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def run(ctx):
    ctx.model_check("Utf_MC.tla", "Utf_MC5.cfg" if ctx.thorough else "Utf_MC.cfg", what="texts of up to %d units of any size" % (5 if ctx.thorough else 4))
    exe = ctx.build("utf")
    rnd = random.Random(ctx.seed)
    ses = []

    def s32(v):
        return v - (1 << 32) if v >= 1 << 31 else v

    def op(s, op, t, mode, units, **kw):
        d = {"op": op, "mode": mode, "in": [s32(u & 0xffffffff) for u in units] if kw.get("size") == 4 else list(units)}
        d.update(kw)
        s.append((d, "%s %s %s %s" % (op, t, mode, " ".join(map(str, units)))))

    def char():
        k = rnd.random()
        if k < .3:
            return rnd.choice(CHARS)
        while True:
            c = rnd.choice((rnd.randrange(1, 128), rnd.randrange(1, 128), rnd.randrange(128, 2048), rnd.randrange(2048, 65536), rnd.randrange(65536, 0x110000)))
            if not 0xd800 <= c < 0xe000:
                return c

    def chars():
        n = rnd.choice((0, 1, 2, 3, rnd.randrange(4, 20), rnd.randrange(20, 90)))
        return [0 if rnd.random() < .01 else char() for _ in range(n)]

    def mode():
        return rnd.choice(("ptr", "str"))

    def same(s, cs, mode):
        b = list("".join(map(chr, cs)).encode())
        t = rnd.choice(("c", "t", "w", "cwc", "wcw", "tw"))
        op(s, "same", t, mode, cs if t in ("w", "wcw", "tw") else b)
    for _ in range(400 if ctx.thorough else 60):
        s = [({"op": "reset"}, "reset")]
        for _ in range(40):
            cs, k, m = chars(), rnd.random(), mode()
            b, h = list("".join(map(chr, cs)).encode()), enc16(cs)
            if k < .5:
                j = rnd.randrange(4)
                if j == 0:
                    op(s, "to8", rnd.choice(("u16", "s16")), m, h, size=2)
                elif j == 1:
                    op(s, "to8", rnd.choice(("u32", "s32", "w", "std")), m, cs, size=4)
                elif j == 2:
                    op(s, "towide", rnd.choice(("es", "std")), m, b)
                else:
                    same(s, cs, m)
            elif k < .75:                                    # damaged
                j = rnd.randrange(3)
                u = (b, h, list(cs))[j]
                for _ in range(rnd.choice((1, 1, 2))):
                    v, at = rnd.choice((BYTES, HALVES, WIDES)[j]), rnd.randrange(len(u) + 1)
                    z = rnd.random()
                    if z < .4 or not u:
                        u.insert(at, v)
                    elif z < .7:
                        u[min(at, len(u) - 1)] = v
                    elif z < .9:
                        del u[min(at, len(u) - 1)]
                    else:
                        del u[at:]
                if j == 0:
                    op(s, "towide", rnd.choice(("es", "std")), m, u)
                elif j == 1:
                    op(s, "to8", rnd.choice(("u16", "s16")), m, u, size=2)
                else:
                    op(s, "to8", rnd.choice(("u32", "s32", "w", "std")), m, u, size=4)
            else:                                            # short ones of telling units
                j = rnd.randrange(3)
                u = [rnd.choice((BYTES, HALVES, WIDES)[j]) for _ in range(rnd.randrange(1, 6))]
                if j == 0:
                    op(s, "towide", rnd.choice(("es", "std")), m, u)
                elif j == 1:
                    op(s, "to8", rnd.choice(("u16", "s16")), m, u, size=2)
                else:
                    op(s, "to8", rnd.choice(("u32", "s32", "w", "std")), m, u, size=4)
        ses.append(s)
    s = [({"op": "reset"}, "reset")]                         # every boundary alone
    for c in CHARS:
        op(s, "to8", "u16", "ptr", enc16([c]), size=2)
        op(s, "to8", "w", "str", [c], size=4)
        op(s, "towide", "es", "ptr", list(chr(c).encode()))
    for h in HELPS:
        s.append(({"op": "help", "in": [ord(c) for c in h]}, "help " + " ".join(str(ord(c)) for c in h)))
    for n in (200, 1000, 3000) if ctx.thorough else (200, 700):        # longer than any one buffer
        cs = [char() for _ in range(n)]
        op(s, "same", "cwc", "str", list("".join(map(chr, cs)).encode()))
        op(s, "same", "wcw", "ptr", cs)
    ses.append(s)
    # all short ones of telling units
    for u, kind in ((BYTES, 0), (HALVES, 1), (WIDES, 2)):
        s = [({"op": "reset"}, "reset")]
        for a in u:
            for b in (None,) + u:
                x = [a] if b is None else [a, b]
                if kind == 0:
                    op(s, "towide", "es", mode(), x)
                else:
                    op(s, "to8", ("u16" if kind == 1 else "u32"), mode(), x, size=2 if kind == 1 else 4)
        ses.append(s)
    ctx.conform(exe, "Utf_Trace.tla", "Utf_Trace.cfg", ses, "texts", chunk=400)
    ctx.sample({"session": [y[:200] for _, y in ses[0]][:6]})
