"""C09: reflected objects saved in the binary form and loaded."""
import copy
import os
import random
from vlib import reflops, reflbytes
from vlib.core import hx

ASSUMPTIONS = [
    "nested classes are registered; no arrays of arrays, items of class type arrays are at most 255 bytes",
    "bit field classes are saved as members, not on their own",
    "the stream is a std::stringstream; foreign files are well formed"]


def classes(rnd, n):
    g = reflops.refgen.Gen(rnd, "B")
    for _ in range(4):
        g.enum()
    for mb in (8, 16, 32, 64):
        g.enum(True, mb)
    for _ in range(3):
        g.bfclass(leaf=True)
    for _ in range(3):
        g.klass(rnd.randrange(2, 6), leaf=True)
    g.klass(0, inv=["arr:class", "class", "str"], mid=True)
    g.klass(0, inv=["mid", "int", "class"], mid=True)
    g.klass(0, inv=["mid", "arr:class", "vec", "mid"], mid=True)
    g.klass(0, inv=["arr:" + k for k in ("int", "flt", "bool", "enum", "flags", "str", "vec", "class", "vec")])
    g.klass(0, inv=["int", "mid", "flags", "vec", "enum", "flt", "bool", "str", "class", "int", "enum", "int"])
    g.bigs = [130, 140]
    g.big = 1.
    g.klass(0, inv=["int", "arr:int"])
    g.big = 0.
    for _ in range(n):
        g.klass(rnd.randrange(1, 10), allow=("int", "int", "flt", "bool", "enum", "flags", "str", "vec", "arr",
                                             "arr", "class", "mid"))
    return g


def mutated(r, c, v, depth=0):
    """another version of the class with its values: members reordered, renamed, widened, dropped"""
    c = copy.deepcopy(c)
    v = copy.deepcopy(v)
    fs = list(zip(c["fields"], v))
    q = r.random()
    if q < 0.6:
        r.shuffle(fs)
    if q > 0.4 and fs:
        f, _ = r.choice(fs)
        f["nm"] = f["nm"] + [r.choice([95, 122, 57])]
    if r.random() < (0.15 if depth == 0 else 0.3) and fs:
        if len(fs) > 1 and r.random() < 0.5:
            fs.pop(r.randrange(len(fs)))
        else:
            fs.append(({"nm": [122, 122], "t": {"k": "str", "n": 0}}, [1, 2, 3]))
    out = []
    for f, x in fs:
        t = f["t"]
        if t["k"] in ("int", "uint") and t["n"] > 1 and r.random() < 0.4:
            t["n"] = 8
            x = [r.randrange(256) for _ in range(8)]
        elif t["k"] == "class" and not t["c"]["bf"] and r.random() < 0.6:
            t["c"], x = mutated(r, t["c"], x, depth + 1)
        elif t["k"] == "arr" and t["el"]["k"] == "class" and not t["el"]["c"]["bf"] and r.random() < 0.4:
            if r.random() < 0.5:     # every item of a version of its own
                t, x = {"k": "str-raw"}, [b for y in x for b in reflbytes.enc_class(
                    *mutated(r, t["el"]["c"], y, depth + 1))]
                f["t"] = t
                out.append((f, x))
                continue
            # every item of the same version
            seed = r.random()
            cs = [mutated(random.Random(seed), t["el"]["c"], y, depth + 1) for y in x]
            t["el"]["c"], x = cs[0][0], [y for _, y in cs]
        out.append((f, x))
    c["fields"] = [f for f, _ in out]
    return c, [x for _, x in out]


def names(c):
    yield tuple(c["cls"])
    for f in c["fields"]:
        yield tuple(f["nm"])
        t = f["t"]
        while t["k"] == "arr":
            t = t["el"]
        if t["k"] == "class":
            yield from names(t["c"])


def run(ctx):
    ctx.model_check("ReflBin_MC.tla", "ReflBin_MC6.cfg" if ctx.thorough else "ReflBin_MC.cfg", workers=8,
                    what="short sequences of saves and loads between versions of a class")
    rnd = random.Random(ctx.seed * 77 + 9)
    g = classes(rnd, 30 if ctx.thorough else 10)
    with open(os.path.join(ctx.work, "classes.inc"), "w") as f:
        f.write(g.source())
    exe = ctx.build("reflbin", ["datas/reflector.cpp", "datas/reflector_io.cpp", "datas/master_printer.cpp"],
                    flags=["-I" + ctx.work, "-O1"])
    use = [i for i, c in enumerate(g.classes) if not c["bf"]]
    ses = []
    for i in use:
        for rep in range(30 if ctx.thorough else 8):
            j = rnd.choice(use)
            slots = [i, i, j]
            sch = [g.classes[k]["sch"] for k in slots]
            vals = [reflops.zero_class(c) for c in sch]
            s = [({"op": "reset", "objs": [{"c": c, "v": v} for c, v in zip(sch, vals)],
                   "names": sorted(set(tuple(n) for c in sch for n in names(c)))},
                  "reset " + " ".join("%d %d" % (k, rnd.randrange(3)) for k in slots))]
            cc = reflops.Calls(rnd, g)

            def raw(k):
                for f in range(len(sch[k]["fields"])):
                    if rnd.random() < 0.75:
                        rec, line = cc.raw(sch[k], f)
                        rec["s"] = k
                        s.append((rec, line.replace("raw ", "raw %d " % k, 1)))
            if rnd.random() < 0.3:
                b = [rnd.randrange(256) for _ in range(3)]
            for k in range(3):
                raw(k)
            queue = []
            for _ in range(14):
                q = rnd.random()
                if q < 0.25 or not queue:
                    k = rnd.randrange(3)
                    if rnd.random() < 0.45:
                        c, v = sch[k], [reflops.rawval(rnd, f["t"]) for f in sch[k]["fields"]]
                        if rnd.random() < 0.85:
                            c, v = mutated(rnd, c, v)
                        b = reflbytes.encoded(c, v)
                        s.append(({"op": "bytes", "b": b}, "bytes " + hx(b)))
                    else:
                        s.append(({"op": "save", "s": k}, "save %d %d" % (k, rnd.random() < 0.3)))
                    queue.append(slots[k])
                elif q < 0.45:
                    raw(rnd.randrange(3))
                else:
                    k = rnd.randrange(3)
                    if slots[k] != queue[0] and rnd.random() < 0.7:
                        k = 0 if slots[0] == queue[0] else 2
                    if slots[k] != queue[0] and not sch[k]["named"] and not g.classes[queue[0]]["sch"]["named"]:
                        continue       # classes without names cannot be told apart
                    s.append(({"op": "load", "s": k}, "load %d %d" % (k, rnd.random() < 0.3)))
                    if slots[k] == queue[0]:
                        queue.pop(0)
            ses.append(s)
    ctx.conform(exe, "ReflBin_Trace.tla", "ReflBin_Trace.cfg", ses, "saveload", chunk=150, par=8)
    ctx.sample({"session": [x for _, x in ses[-1]][:20]})
