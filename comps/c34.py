"""C34: compressed blocks of pixels."""
import random

SIZE = {"bc1": (8, 3), "bc1a": (8, 4), "bc2": (16, 4), "bc3": (16, 4), "bc4": (8, 1), "bc5": (16, 3), "bc5ga": (16, 2), "sbc1": (8, 3)}


def run(ctx):
    ctx.model_check("Blocks_MC.tla", "Blocks_MC.cfg", what="images of two by two blocks with all ends out of five and four patterns of codes")
    ctx.model_check("Blocks_MC.tla", "Blocks_MC_ends.cfg", what="values between 29 x 29 ends")
    exe = ctx.build("blocks", flags=["-std=c++17"])
    rnd = random.Random(ctx.seed)

    def pair(four):
        a, b = rnd.choice((0, 0xffff, 0x8000, 0x7fff, 0xf800, 0x07e0, 0x001f, rnd.getrandbits(16))), rnd.getrandbits(16)
        if rnd.random() < .1:
            b = a
        if rnd.random() < .3:
            b = (a & 0xff00) | rnd.getrandbits(8)
        if four and a < b or four is False and a > b:
            a, b = b, a
        return bytes((a & 255, a >> 8, b & 255, b >> 8)) + bytes(rnd.choice((0, 255, 0xe4, 0x1b, rnd.getrandbits(8), rnd.getrandbits(8))) for _ in range(4))

    def ramp():
        a, b = rnd.choice((0, 255, 128, rnd.getrandbits(8))), rnd.choice((0, 255, rnd.getrandbits(8)))
        return bytes((a, b)) + bytes(rnd.choice((0, 255, rnd.getrandbits(8), rnd.getrandbits(8), rnd.getrandbits(8))) for _ in range(6))

    def block(kind):
        col = pair(rnd.choice((True, True, False, None)))
        if kind == "bc2":
            return bytes(rnd.choice((0, 255, 0xf0, 0x0f, rnd.getrandbits(8))) for _ in range(8)) + col
        if kind == "bc3":
            return ramp() + col
        if kind == "bc4":
            return ramp()
        if kind in ("bc5", "bc5ga"):
            return ramp() + ramp()
        return col

    ses = []
    for _ in range(12 if ctx.thorough else 2):
        for kind in SIZE:
            for _ in range(3):
                w, h = rnd.choice(((1, 1), (2, 1), (1, 2), (3, 2), (2, 3)))
                px = SIZE[kind][1]
                fill = rnd.choice((bytes([rnd.choice((0, 255, 0x33))]) * (16 * w * h * px), bytes(rnd.getrandbits(8) for _ in range(16 * w * h * px))))
                s = [({"op": "reset"}, "reset"), ({"op": "image", "kind": kind, "w": w, "h": h}, "image %s %d %d x%s" % (kind, w, h, fill.hex()))]
                order = [(x, y) for y in range(h) for x in range(w)]
                rnd.shuffle(order)
                for x, y in order + [rnd.choice(order) for _ in range(4)]:
                    d = block(kind)
                    s.append(({"op": "draw", "x": x, "y": y, "data": list(d)}, "draw %d %d x%s" % (x, y, d.hex())))
                ses.append(s)
    s = [({"op": "reset"}, "reset")]
    for _ in range(300 if ctx.thorough else 40):
        a = bytes(rnd.choice((0, 255, 127, 128, rnd.getrandbits(8), rnd.randrange(100, 156))) for _ in range(3 * rnd.choice((0, 1, 2, 5))))
        s.append(({"op": "blue", "a": list(a)}, "blue x" + a.hex()))
    ses.append(s)
    s = [({"op": "reset"}, "reset")]
    for c in list(range(0, 65536, 2 if ctx.thorough else 97)) + [0xffff, 0x8000, 0x7fff]:
        s.append(({"op": "unpack", "c": c}, "unpack %d" % c))
    ses += [[s[0]] + s[i:i + 800] for i in range(1, len(s), 800)]
    ctx.conform(exe, "Blocks_Trace.tla", "Blocks_Trace.cfg", ses, "blocks", chunk=400)
    ctx.sample({"session": [y[:200] for _, y in ses[0]][:5]})
