"""C25: vectors."""
import math
import random

INTS = {"i8": (8, 1), "u8": (8, 0), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0)}
SHAPES = [(t, n) for t in list(INTS) + ["f"] for n in (2, 3, 4)] + [("sf", 4), ("si", 4), ("su", 4)]
MC = ("i8_2", "i8_3", "u8_2", "i16_2", "u16_2", "si_3")
ROOTS = [v for v in ((0, 0, 0, 0), (1, 0, 0, 0), (0, 2, 0, 0), (0, 0, 0, 4), (1, 1, 1, 1), (2, 2, 2, 2), (3, 4, 0, 0), (0, 3, 0, 4), (1, 2, 2, 0), (2, 3, 6, 0), (4, 4, 7, 0),
                         (1, 3, 3, 9), (2, 4, 5, 6), (1, 5, 5, 7), (6, 8, 0, 0), (5, 12, 0, 0))]


def run(ctx):
    for m in MC:
        ctx.model_check("Vec_MC.tla", "Vec_MC_%s.cfg" % m, what="vectors of components at boundaries, type and components: " + m)
    ctx.usable("vecs_use", "vectors of integers cannot be shifted by a number, or those of four take no number", flags=["-std=c++17"])
    exe = ctx.build("vecs", flags=["-std=c++17"])
    rnd = random.Random(ctx.seed)
    ses = []

    def rng(t):
        b, s = INTS[t]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

    def sign32(v):
        return v - (1 << 32) if v >= 1 << 31 else v

    def val(t, what):
        if t in ("f", "sf"):
            if what in ("mul", "met"):
                return rnd.choice((0, 1024, -1024, rnd.randrange(-64, 65) * 64, rnd.randrange(-12, 13) * 512))
            return rnd.choice((0, 1024, -1024, rnd.randrange(-100000, 100000), rnd.randrange(-40, 41) * 512))
        w = {"si": "i32", "su": "u32"}.get(t, t)
        lo, hi = rng(w)
        if w in ("i32", "u32"):
            if what in ("and", "or", "xor", "not", "cmp", "shift"):
                return sign32(rnd.choice((0, 1, (1 << 32) - 1, 1 << 31, (1 << 31) - 1, rnd.getrandbits(32), rnd.getrandbits(32))))
            k = {"add": 1 << 29, "sub": 1 << 29, "mul": 30000, "met": 10000, "div": 1 << 30}.get(what, 1 << 30)
            lo = 0 if w == "u32" else -k
            return rnd.choice((0, 1, lo, k, rnd.randrange(lo, k), rnd.randrange(lo // 1000, k // 1000 + 2)))
        if what in ("mul", "met") and w == "u16":
            return rnd.choice((0, 1, 255, 256, rnd.randrange(0, 23000)))
        if what == "met":
            lo, hi = max(lo, -23000), min(hi, 23000)
        return rnd.choice((lo, hi, 0, 1, lo + 1, hi - 1, rnd.randrange(lo, hi + 1), rnd.randrange(lo, hi + 1), rnd.randrange(max(lo, -5), 6)))

    def vec(t, n, what):
        v = [val(t, what) for _ in range(n)]
        if what in ("cmp", "un") and rnd.random() < .4:
            v = [v[0]] * n
            if rnd.random() < .6:
                v[rnd.randrange(n)] = val(t, what)
        return v

    def w(*vs):
        return " ".join(str(x) for v in vs for x in (v if isinstance(v, list) else [v]))

    def one(t, n):
        s = [({"op": "reset"}, "reset")]
        flt, simd = t in ("f", "sf"), t in ("sf", "si", "su")
        isimd = t in ("si", "su")
        un = t in ("u8", "u16", "u32", "su")
        for _ in range(60 if ctx.thorough else 6):
            ops = ["add", "sub", "mul"] + ([] if isimd else ["div"]) + ([] if flt else ["and", "or"]) + (["xor", "not"] if isimd else [])
            for what in ops:
                for mode in ("v", "s", "V", "S"):
                    if what == "not":
                        mode = "v"
                    a, b = vec(t, n, what), vec(t, n, what)
                    if what == "div":
                        if flt:
                            b = [rnd.choice((1, -1)) * (1 << rnd.randrange(5, 14)) for _ in range(n)]
                            a = [rnd.randrange(-20, 21) * 8192 for _ in range(n)]
                        else:
                            b = [x if x else 1 for x in b]
                            if t == "i32":
                                b = [x if x != -1 else 2 for x in b]
                    s.append(({"op": "bin", "t": t, "what": what, "mode": mode, "a": a, "b": b}, w("bin", t, n, what, mode, a, b)))
            if not flt:
                bits = 32 if simd else INTS[t][0]
                for what in ("shl", "shr"):
                    for mode in ("s", "S") if simd else ("v", "s", "V", "S"):
                        a, by = vec(t, n, "shift"), [rnd.choice((0, 1, bits - 1, rnd.randrange(bits))) for _ in range(n)]
                        if t == "i16" and what == "shl" or t == "u16" and what == "shl":
                            by = [min(x, 14) for x in by]
                        s.append(({"op": "shift", "t": t, "what": what, "mode": mode, "a": a, "by": by}, w("shift", t, n, what, mode, a, by)))
            for i in range(n):                            # all the same but one
                a = [128 if flt else 5] * n
                a[i] += 64 if flt else 1
                s.append(({"op": "un", "t": t, "a": a}, w("un", t, n, a)))
                b = list(a)
                b[i] += 64 if flt else 1
                s.append(({"op": "cmp", "t": t, "a": a, "b": b}, w("cmp", t, n, a, b)))
            for _ in range(4):
                a = vec(t, n, "cmp")
                b = rnd.choice((vec(t, n, "cmp"), list(a), [x + rnd.choice((0, 0, 1024 if flt else 0)) for x in a], [x + (rnd.choice((0, -512, 512)) if flt else 0) for x in a]))
                if rnd.random() < .5:
                    b[rnd.randrange(n)] = a[0]
                s.append(({"op": "cmp", "t": t, "a": a, "b": b}, w("cmp", t, n, a, b)))
                a = vec(t, n, "un")
                if flt:
                    a = [64 * rnd.randrange(-1500, 1500) if rnd.random() < .8 else a[0] // 64 * 64 for _ in a]
                    a = [x if abs(x) < 100 * 1024 else 640 for x in a]
                    if rnd.random() < .4:
                        a = [a[0]] * n
                    if rnd.random() < .4:
                        a[rnd.randrange(n)] += 64
                elif t in ("i32", "u32", "si", "su"):
                    a = [x if un and x >= 0 or not un and abs(x) < 1 << 30 else 7 for x in a]
                s.append(({"op": "un", "t": t, "a": a}, w("un", t, n, a)))
                a = vec(t, n, "met")
                if flt:
                    a = [rnd.randrange(-127 * 1024, 127 * 1024) for _ in a]
                elif t in ("i32", "u32", "si", "su"):
                    a = [rnd.randrange(0 if un else -1000000, 1000000) for _ in a]
                s.append(({"op": "conv", "t": t, "a": a}, w("conv", t, n, a)))
                a, b = vec(t, n, "met"), vec(t, n, "met")
                s.append(({"op": "met", "t": t, "a": a, "b": b}, w("met", t, n, a, b)))
                # lengths
                if flt:
                    a = list(rnd.choice([r for r in ROOTS if not any(r[n:])]))[:n]
                    rnd.shuffle(a)
                    a = [x * rnd.choice((1, -1)) * 1024 for x in a]
                    if rnd.random() < .3:
                        a = [x // 2 for x in a]
                else:
                    lo, hi = rng({"si": "i32", "su": "u32"}.get(t, t))
                    m = {2: 80, 3: 70, 4: 60}[n] if INTS.get(t, (32,))[0] == 8 else 10000
                    a = [rnd.choice((0, 1, rnd.randrange(max(lo, -m), min(hi, m) + 1))) for _ in range(n)]
                s.append(({"op": "len", "t": t, "a": a}, w("len", t, n, a)))
                a = vec(t, n, "met")
                if t == "sf":
                    a = [rnd.choice((rnd.randrange(-90000, 90000), 512 * rnd.randrange(-99, 100))) for _ in a]
                elif t == "su":
                    a = [sign32(rnd.choice((rnd.getrandbits(24) << rnd.randrange(9), rnd.getrandbits(24) << 8, 0xffff0000, 0x80000000, 5))) for _ in a]
                elif t == "si":
                    a = [rnd.choice((1, -1)) * (rnd.getrandbits(24) << rnd.randrange(7)) for _ in a]
                s.append(({"op": "fit", "t": t, "a": a}, w("fit", t, n, a)))
        return s
    for t, n in SHAPES:
        ses.append(one(t, n))
    s = [({"op": "reset"}, "reset")]
    for _ in range(400 if ctx.thorough else 60):
        what = rnd.choice(("and", "or", "xor", "not", "and=", "or=", "xor=", "ands", "ors", "xors", "ands=", "ors=", "xors="))
        a, b = ([rnd.choice((0, 255, rnd.getrandbits(8))) for _ in range(16)] for _ in "ab")
        for v in (a, b):                                  # no NaNs: they may change on their way
            for k in (3, 7, 11, 15):
                v[k] = rnd.choice((0x3f, 0, 0x80, 0x42, 0xc1))
        s.append(({"op": "bits", "t": what, "a": a, "b": b}, "bits %s x%s x%s" % (what, bytes(a).hex(), bytes(b).hex())))
    ses.append(s)
    for eps in (1, 0, 3, 100):
        s = [({"op": "reset"}, "reset"), ({"op": "eps", "e": eps}, "eps %d" % eps)]
        for _ in range(300 if ctx.thorough else 50):
            t = rnd.choice(("s", "s", "2", "3", "4"))
            n = 4 if t == "s" else int(t)
            e = eps if t == "s" else 1
            base = rnd.choice((0, 1 << 22, -(1 << 22), rnd.randrange(-(1 << 22), 1 << 22)))
            a = [base] * n if rnd.random() < .5 else [rnd.randrange(-(1 << 22), 1 << 22) for _ in range(n)]
            b = [x + rnd.choice((0, 0, e, -e, e)) for x in a]
            if rnd.random() < .6:
                b[rnd.randrange(n)] += rnd.choice((1, -1, e + 1, -e - 1))
            s.append(({"op": "near", "t": t, "a": a, "b": b}, w("near", t, a, b)))
        ses.append(s)
    s = [({"op": "reset"}, "reset")]
    for _ in range(100 if ctx.thorough else 25):
        k = rnd.randrange(4)
        while True:
            a = [rnd.choice((0, 512, -512, rnd.randrange(-900, 900))) for _ in range(4)]
            a[k] = 0
            if sum(x * x for x in a) <= 1 << 20:
                break
        s.append(({"op": "elem", "k": k, "a": a}, w("elem", k, a)))
    ses.append(s)
    ctx.conform(exe, "Vec_Trace.tla", "Vec_Trace.cfg", ses, "vectors", chunk=400)
    ctx.sample({"session": [y[:200] for _, y in ses[0]][:6]})
