"""C22: codecs of vertex and pixel formats."""
import random
from vlib.core import hx

SIZE = {"R32G32B32A32": 16, "R32G32B32": 12, "R16G16B16A16": 8, "R32G32": 8, "R16G16B16": 6, "R32": 4, "R16G16": 4,
        "R10G10B10A2": 4, "R11G11B10": 4, "R8G8B8A8": 4, "R24G8": 4, "R8G8B8": 3, "R8G8": 2, "R16": 2, "R5G6B5": 2,
        "R5G5B5A1": 2, "R8": 1}
FLOATS = ("R32G32B32A32", "R32G32B32", "R32G32", "R32", "R16G16B16A16", "R16G16B16", "R16G16", "R16", "R11G11B10")
TYPES = ("INT", "UINT", "NORM", "UNORM", "FLOAT", "UFLOAT")


def known(t, c):
    return t in TYPES[:4] or (t == "FLOAT" and c in FLOATS) or (t == "UFLOAT" and c == "R11G11B10")


def run(ctx):
    ctx.model_check("Formats_MC.tla", "Formats_MC.cfg", what="elements of tiny formats put together and taken apart")
    exe = ctx.build("formats", repo_sources=["uni/uni_format.cpp"])
    rnd = random.Random(ctx.seed)

    def elem(n):
        k = rnd.randrange(5)
        if k == 0:
            return bytes(rnd.choice((0, 255)) for _ in range(n))
        if k == 1:
            return bytes(rnd.choice((0, 255, 1, 128, 127, 254)) for _ in range(n))
        if k == 2:      # runs of bits
            v, p = 0, 0
            while p < 8 * n:
                r = rnd.randrange(1, 13)
                if rnd.randrange(2):
                    v |= ((1 << r) - 1) << p
                p += r
            return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
        return rnd.randbytes(n)
    ses = []
    for t in TYPES:
        for c in list(SIZE) + ["CUSTOM"]:
            s = [({"op": "reset"}, "reset")]
            if c == "CUSTOM" or not known(t, c):
                s.append(({"op": "get", "t": t, "c": c}, "get %s %s end x" % (t, c)))
                ses.append(s)
                continue
            n = SIZE[c]
            es = [bytes(n), b"\xff" * n] + [elem(n) for _ in range(150 if ctx.thorough else 12)]
            if n == 1:
                es = [bytes([i]) for i in range(256)]
            for b in es:
                s.append(({"op": "get", "t": t, "c": c, "b": list(b)}, "get %s %s %s %s" % (t, c, rnd.choice(("end", "end", "begin")), hx(b))))
            cur = {"i": 0, "f": 0}
            for _ in range(40 if ctx.thorough else 6):
                k = rnd.choice("if") if rnd.random() < .2 else ("i" if t in TYPES[:2] else "f")
                cnt = rnd.choice((0, 0, 1, 2, 3, 7, rnd.randrange(1, 20)))
                stride = rnd.choice((0, 0, n, n + 1, n + rnd.randrange(40), rnd.randrange(1, n + 1)))
                m = rnd.random()
                if m < .04:         # many
                    cnt, stride = rnd.choice((256, 257, 300, 1000)), rnd.choice((0, n))
                elif m < .1 and (cnt or cur[k]) < 20:
                    stride = rnd.choice((255, 256, 300, 700))
                bad = (k == "i") != (t in TYPES[:2]) or 0 < stride < n
                m = cnt or cur[k]
                b = b"".join(elem(n) + rnd.randbytes((stride or n) - n if stride >= n else 0) for _ in range(m))
                b = b[:(m - 1) * (stride or n) + n] if m and not bad else b
                s.append(({"op": "sample", "t": t, "c": c, "k": k, "n": cnt, "stride": stride, "b": list(b)},
                          "sample %s %s %s %s %d %d %s" % (t, c, k, rnd.choice(("end", "end", "begin")), cnt, stride, hx(b))))
                if not bad:
                    cur[k] = m
            ses.append(s)
    # vectors kept over changes of codec
    for _ in range(200 if ctx.thorough else 30):
        s = [({"op": "reset"}, "reset")]
        cur = {"i": 0, "f": 0}
        for _ in range(8):
            t, c = rnd.choice([(t, c) for t in TYPES for c in SIZE if known(t, c)])
            n = SIZE[c]
            k = rnd.choice("iif" if t in TYPES[:2] else "iff")
            cnt = rnd.choice((0, 0, 1, 2, 5))
            stride = rnd.choice((0, n, n + 3, max(1, n - 1)))
            bad = (k == "i") != (t in TYPES[:2]) or 0 < stride < n
            m = cnt or cur[k]
            b = rnd.randbytes((m - 1) * (stride or n) + n) if m else b""
            s.append(({"op": "sample", "t": t, "c": c, "k": k, "n": cnt, "stride": stride, "b": list(b)},
                      "sample %s %s %s %s %d %d %s" % (t, c, k, rnd.choice(("end", "begin")), cnt, stride, hx(b))))
            if not bad:
                cur[k] = m
            x, y = ([rnd.choice((0, 1, 2, 6, 255, 256, 65535, rnd.randrange(65536))) % 32768 for _ in "ab"] for _ in "ab")
            if rnd.randrange(4) == 0:
                y = list(x)
            if rnd.randrange(4) == 0:
                y = [y[0], x[1]]
            s.append(({"op": "order", "x": x, "y": y}, "order %d %d %d %d" % (*x, *y)))
        ses.append(s)
    ctx.conform(exe, "Formats_Trace.tla", "Formats_Trace.cfg", ses, "codecs", chunk=300)
    ctx.sample({"session": [y[:200] for _, y in ses[8]][:5]})
