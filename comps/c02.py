"""C02: typed values through binary writers and readers, both byte orders."""
import random
from vlib.core import hx

ASSUMPTIONS = ["little-endian host", "wchar_t is 4 bytes", "the stream is a std::stringstream"]
ITEM = {"u8": [1], "i8": [1], "u16": [2], "i16": [2], "u32": [4], "i32": [4], "u64": [8], "i64": [8],
        "f32": [4], "f64": [8], "urw": [1, 4], "urn": [1, 4, 2, 2, 8], "usw": [2, 2, 4, 4, 2, 2],
        "uow": [2, 2, 2, 2], "v2": [4] * 2, "v3": [4] * 3, "v4": [4] * 4, "sv2": [2] * 2,
        "a8": [1] * 5, "a16": [2] * 3, "a32": [4] * 4, "a64": [8] * 2}
CONT = {"c8": [1], "c16": [2], "c32": [4], "c64": [8], "cf": [4], "curw": [1, 4],
        "curn": [1, 4, 2, 2, 8], "cusw": [2, 2, 4, 4, 2, 2], "cuow": [2, 2, 2, 2], "cv4": [4] * 4,
        "str": [1], "wstr": [4]}
CT = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "cnt": 1}


def gen(rnd, thorough, mixed, big):
    s = [({"op": "reset"}, "reset")]
    q = []
    sw = {"w": 0, "r": 0}

    def fields(kind, ws, n):
        fs = []
        for _ in range(n):
            f = [[rnd.randrange(256) for _ in range(w)] for w in ws]
            if rnd.random() < 0.3:
                f = [[rnd.choice((0, 1, 127, 128, 255)) for _ in range(w)] for w in ws]
            if kind.endswith("uow"):
                f[0] = [3, 0]
            fs += f
        return fs

    def flip(side, v):
        sw[side] = v
        s.append(({"op": side + "s", "on": v}, "%ss %d" % (side, v)))

    def read():
        k = q.pop(0)
        if sw["r"] != k[-1] and (not mixed or k[0] in ("wc",) or "uow" in k[1]):
            flip("r", k[-1])
        if k[0] == "w":
            _, kind, n, ws, lam, _ = k
            s.append(({"op": "r", "ws": ws * n},
                      "%s %s %d" % ("rl" if lam else "r", kind, n)))
        elif k[0] == "wc":
            _, kind, ct, ws, _ = k
            s.append(({"op": "rc", "cw": CT[ct], "ws": ws},
                      "%s %s %s" % (rnd.choice(("rc", "rcl")), kind, ct)))
        else:
            _, kind, w, _ = k
            s.append(({"op": "rz", "cw": w}, "rz " + kind))

    for _ in range(rnd.randrange(3, 14)):
        if rnd.random() < 0.25:
            side = rnd.choice("wr") if mixed else "w"
            flip(side, 1 - sw[side])
        if q and rnd.random() < 0.4:
            read()
            continue
        t = rnd.random()
        if t < 0.4:
            kind = rnd.choice(sorted(ITEM))
            ws = ITEM[kind]
            fs = fields(kind, ws, 1)
            s.append(({"op": "w", "fs": fs}, "w %s 1 %s" % (kind, hx(sum(fs, [])))))
            q.append(("w", kind, 1, ws, False, sw["w"]))
        elif t < 0.9:
            kind = rnd.choice(sorted(CONT))
            ws = CONT[kind]
            n = rnd.choice((0, 1, 2, 3, 5, 8, 17))
            if big and rnd.random() < 0.5:
                n = rnd.choice((127, 128, 200, 255))
                if kind in ("curn", "cusw", "cv4"):
                    n = 40
            ct = rnd.choice(sorted(CT))
            if big and ct in ("u16", "u32", "u64") and kind in ("c8", "str", "c16") and rnd.random() < 0.6:
                n = rnd.choice((256, 257, 300))
                if rnd.random() < 0.04:
                    n = 4200
            fs = fields(kind, ws, n)
            if t < 0.6:
                s.append(({"op": "w", "fs": fs}, "w %s %d %s" % (kind, n, hx(sum(fs, [])))))
                q.append(("w", kind, n, ws, rnd.random() < 0.4, sw["w"]))
            else:
                s.append(({"op": "wc", "cw": CT[ct], "n": n, "fs": fs},
                          "%s %s %s %d %s" % (rnd.choice(("wc", "wcl")), kind, ct, n, hx(sum(fs, [])))))
                q.append(("wc", kind, ct, ws, sw["w"]))
        else:
            kind = rnd.choice(("str", "wstr"))
            w = CONT[kind][0]
            n = rnd.choice((0, 1, 2, 7, 16, 40))
            fs = [[rnd.randrange(1, 256)] + [rnd.randrange(2) for _ in range(w - 1)] for _ in range(n)]
            s.append(({"op": "wz", "cw": w, "fs": fs}, "wz %s %d %s" % (kind, n, hx(sum(fs, [])))))
            q.append(("wz", kind, w, sw["w"]))
    while q:
        read()
    return s


def run(ctx):
    ctx.model_check("TypedIO_MC.tla", "TypedIO_MC.cfg", what="two values of up to two fields, both byte orders")
    exe = ctx.build("typedio")
    rnd = random.Random(ctx.seed)
    n = 4000 if ctx.thorough else 700
    ses = [gen(rnd, ctx.thorough, i % 3 == 0, i % 12 == 1) for i in range(n)]
    # every kind, alone, in both byte orders
    for sw in (0, 1):
        for kind, ws in sorted(ITEM.items()):
            s = [({"op": "reset"}, "reset"), ({"op": "ws", "on": sw}, "ws %d" % sw),
                 ({"op": "rs", "on": sw}, "rs %d" % sw)]
            for _ in range(3):
                fs = [[rnd.randrange(256) for _ in range(w)] for w in ws]
                if kind == "uow":
                    fs[0] = [3, 0]
                s.append(({"op": "w", "fs": fs}, "w %s 1 %s" % (kind, hx(sum(fs, [])))))
            for _ in range(3):
                s.append(({"op": "r", "ws": ws}, "r %s 1" % kind))
            ses.append(s)
    # long containers: past every plausible block of a copy loop, and (once) past 65535 items
    for sw in (0, 1):
        for kind, ws, n in (("c8", [1], 4200), ("c16", [2], 4200), ("c32", [4], 2100), ("c64", [8], 1050),
                            ("cf", [4], 1030), ("c8", [1], 66000)):
            if n > 60000 and sw == 0:
                continue
            s = [({"op": "reset"}, "reset"), ({"op": "ws", "on": sw}, "ws %d" % sw),
                 ({"op": "rs", "on": sw}, "rs %d" % sw)]
            fs = [[rnd.randrange(256) for _ in range(w)] for _ in range(n) for w in ws]
            data = hx(sum(fs, []) if n < 10000 else [f[0] for f in fs])
            if n < 60000:
                s.append(({"op": "w", "fs": fs}, "w %s %d %s" % (kind, n, data)))
            s.append(({"op": "wc", "cw": 4, "n": n, "fs": fs}, "wc %s u32 %d %s" % (kind, n, data)))
            if n < 60000:
                s.append(({"op": "r", "ws": ws * n}, "r %s %d" % (kind, n)))
            s.append(({"op": "rc", "cw": 4, "ws": ws}, "rc %s u32" % kind))
            ses.append(s)
    ctx.conform(exe, "TypedIO_Trace.tla", "TypedIO_Trace.cfg", ses, "typedio", chunk=1500)
    ctx.sample({"session": [x for _, x in ses[1]]})
