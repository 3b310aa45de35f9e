"""C11: databases of reflected classes and enumerations."""
import os
import random
from vlib import refgen, reflbytes
from vlib.core import hx, le

ASSUMPTIONS = ["little endian databases, at most 255 members in a class",
               "the stream is a std::stringstream; foreign databases are well formed"]


def th(t):
    while t["k"] == "arr":
        t = t["el"]
    return t.get("th", [])


def describe(c):
    s = c["sch"]
    d = {"cls": s["cls"], "named": s["named"], "ext": 1 if c["mode"] == "EXTENDED" else 0, "fields": []}
    for f in s["fields"]:
        t = f["t"]
        while t["k"] == "arr":
            t = t["el"]
        d["fields"].append({"nm": f["nm"], "al": f["al"], "d1": f["d1"], "d2": f["d2"],
                            "th": t["c"]["cls"] if t["k"] == "class" else []})
    return d


def foreign(r):
    """a database and one of its many saved forms, sections anywhere"""
    word = lambda: [r.choice([97, 66, 95, 57, 200, 37]) for _ in range(r.choice([0, 1, 1, 2, 5, 9] * 9 + [255, 256, 300]))]
    rb = lambda n: [r.randrange(256) for _ in range(n)]
    nc, ne = r.choice([0, 1, 2, 3]), r.choice([0, 0, 1, 2, 4])
    cs = []
    for _ in range(nc):
        n = r.choice([0, 1, 2, 3, 7] * 20 + [260])
        cs.append({"h": rb(4), "t": [rb(16) for _ in range(n)],
                   "nm": [] if r.random() < .3 else [[word() for _ in range(n)]],
                   "cn": [] if r.random() < .3 else [word()],
                   "al": [] if r.random() < .4 else [[[] if r.random() < .4 else [word()] for _ in range(n)]],
                   "ah": [] if r.random() < .4 else [[rb(4) for _ in range(n)]],
                   "ds": [] if r.random() < .4 else [[[word(), word()] for _ in range(n)]]})
    es = []
    for _ in range(ne):
        n = r.choice([0, 1, 2, 5] * 5 + [270])
        es.append({"h": rb(4), "nm": [word() for _ in range(n)], "v": [rb(8) for _ in range(n)], "cn": word()})
    buf = [0] * (56 * nc)
    pending = []
    known = {}

    def text(s):
        k = tuple(s)
        if k in known and r.random() < .5:
            return known[k]
        at = len(buf)
        buf.extend(s + [0])
        known[k] = at
        return at

    def gap(align=1):
        buf.extend(rb(r.choice([0, 0, 0, 1, 3])))
        while len(buf) % align:
            buf.append(r.randrange(256))

    def put32(at, v):
        buf[at:at + 4] = le(v, 4)
    if not nc:
        buf.extend(rb(8))        # nothing is at 0
    jobs = []
    for i, c in enumerate(cs):
        e = 56 * i
        n = len(c["t"])
        buf[e:e + 4] = c["h"]
        put32(e + 4, n)
        buf[e + 8:e + 32] = rb(24)

        def types(e=e, c=c):
            gap(4)
            put32(e + 32, len(buf))
            for t in c["t"]:
                buf.extend(t)

        def names(e=e, c=c, n=n, key="nm", at=36):
            if not c[key]:
                return
            first = r.random() < .5
            offs = []
            xs = [x if key == "nm" else (x[0] if x else None) for x in c[key][0]]
            if first:
                offs = [0 if x is None else text(x) for x in xs]
            gap(8)
            p = len(buf)
            put32(e + at, p)
            buf.extend(rb(4 * n) + [0] * (4 * n))
            if not first:
                offs = [0 if x is None else text(x) for x in xs]
            for k, o in enumerate(offs):
                put32(p + 4 * n + 4 * k, o)

        def ahash(e=e, c=c):
            if c["ah"]:
                gap(4)
                put32(e + 48, len(buf))
                for h in c["ah"][0]:
                    buf.extend(h)

        def descs(e=e, c=c, n=n):
            if not c["ds"]:
                return
            gap(8)
            p = len(buf)
            put32(e + 52, p)
            buf.extend(rb(16 * n) + [0] * (16 * n))
            for k, d in enumerate(c["ds"][0]):
                for q in range(2):
                    put32(p + 16 * n + 16 * k + 8 * q, text(d[q]) if d[q] else 0)
                    put32(p + 16 * n + 16 * k + 8 * q + 4, len(d[q]))

        def cname(e=e, c=c):
            if c["cn"]:
                put32(e + 40, text(c["cn"][0]))
        jobs += [types, names, lambda e=e, c=c, n=n, f=names: f(e, c, n, "al", 44), ahash, descs, cname]
    order = list(range(len(jobs)))
    r.shuffle(order)
    for j in order:
        jobs[j]()
    ts = [x for e in es for x in e["nm"] + [e["cn"]]]
    offs = [text(t) for t in ts]
    gap(8)
    eo = len(buf)
    for e in es:
        buf.extend(e["h"] + le(len(e["v"]), 4))
        for v in e["v"]:
            buf.extend(v)
    buf.extend(rb(4 * len(ts)))
    for o in offs:
        buf.extend(le(o, 4))
    if r.random() < .5:
        buf.extend(rb(r.randrange(6)))
    ver = r.choice([1000, 1000, 999, 1])
    return list(b"RFDB") + le(ver, 4) + le(nc, 4) + le(ne, 4) + le(len(ts), 4) + le(eo, 4) + le(len(buf), 4) + rb(4) + buf


def run(ctx):
    ctx.model_check("ReflDB_MC.tla", "ReflDB_MC6.cfg" if ctx.thorough else "ReflDB_MC.cfg", workers=8,
                    what="short sequences of additions, saves and loads of two databases over one stream")
    rnd = random.Random(ctx.seed * 131 + 11)
    g = refgen.Gen(rnd, "D")
    for _ in range(6):
        g.enum()
    for mb in (8, 16, 32, 64):
        g.enum(True, mb)
    for _ in range(3):
        g.bfclass(leaf=True)
    for _ in range(3):
        g.klass(rnd.randrange(1, 6), leaf=True)
    for m in ("0", "VARNAMES", "EXTENDED", "EXTENDED", "EXTENDED"):
        for _ in range(2):
            g.klass(rnd.choice([1, 2, 3, 9]), mode=m)
    g.long = .4                  # long names, aliases and descriptions
    g.enum()
    for m in ("VARNAMES", "EXTENDED", "EXTENDED", "EXTENDED"):
        g.klass(rnd.choice([2, 4, 6]), mode=m)
    g.long = 0.
    g.klass(60, mode="EXTENDED")
    enums = g.enums + g.fenums
    with open(os.path.join(ctx.work, "classes.inc"), "w") as f:
        f.write(g.source())
        f.write("static void AddClass(ReflectorIO &d, int i, bool p) {\n switch (i) {\n")
        for i, c in enumerate(g.classes):
            f.write("case %d: if (p) d.AddClass(GetReflectedClass<%s>()); else d.AddClass<%s>(); break;\n" % (i, c["c"], c["c"]))
        f.write(" }\n}\nstatic void AddEnum(ReflectorIO &d, int i, bool p) {\n switch (i) {\n")
        for i, e in enumerate(enums):
            f.write("case %d: if (p) d.AddEnum(GetReflectedEnum<%s>()); else d.AddEnum<%s>(); break;\n" % (i, e["c"], e["c"]))
        f.write(" }\n}\n")
    exe = ctx.build("refldb", ["datas/reflector.cpp", "datas/reflector_io.cpp", "datas/master_printer.cpp"],
                    flags=["-I" + ctx.work, "-O1"])
    ses = []
    for i in range(400 if ctx.thorough else 90):
        pre = [rnd.randrange(256) for _ in range(rnd.choice([0, 0, 1, 7, 32, 45]))]
        names = set()
        s = []
        starts = []          # where the saved databases begin
        size = len(pre)
        total = 0
        if pre:
            s.append(({"op": "seek", "p": size}, "seek %d" % size))

        def add(k):
            if rnd.random() < 0.6:
                j = rnd.randrange(len(g.classes))
                d = describe(g.classes[j])
                names.update([tuple(d["cls"])] + [tuple(x) for f in d["fields"] for x in (f["nm"], f["al"], f["th"])])
                s.append(({"op": "class", "s": k, "d": d}, "class %d %d %d" % (k, j, rnd.random() < .5)))
            else:
                j = rnd.randrange(len(enums))
                e = enums[j]
                d = {"c": refgen.codes(e["c"]), "nm": [refgen.codes(a) for a, _ in e["items"]],
                     "v": [le(v, 8) for _, v in e["items"]]}
                names.add(tuple(d["c"]))
                s.append(({"op": "enum", "s": k, "d": d}, "enum %d %d %d" % (k, j, rnd.random() < .5)))
        for _ in range(rnd.choice([0, 1, 2, 5])):
            add(rnd.randrange(2))
        for _ in range(rnd.randrange(3, 12)):
            q = rnd.random()
            k = rnd.randrange(2)
            if q < 0.25:
                add(k)
            elif q < 0.5 or not starts:
                t = rnd.random()
                starts.append(0)
                if t < 0.55:
                    s.append(({"op": "save", "s": k}, "save %d" % k))
                elif t < 0.9:
                    b = foreign(rnd)
                    s.append(({"op": "bytes", "b": b}, "bytes " + hx(b)))
                else:
                    b = foreign(rnd)
                    if rnd.random() < .5:
                        b[rnd.randrange(4)] ^= 1 << rnd.randrange(8)
                    else:
                        b[4:8] = le(rnd.choice([1001, 1256, 70000]), 4)
                    s.append(({"op": "bytes", "b": b}, "bytes " + hx(b)))
                    s.append(({"op": "load", "s": k}, "load %d" % k))
                    starts = []
                    break
            else:
                starts.pop()
                if rnd.random() < 0.2:        # the first one again
                    s.append(({"op": "seek", "p": size}, "seek %d" % size))
                    starts = [0] * (total - 1)
                s.append(({"op": "load", "s": k}, "load %d" % k))
        s.insert(0, ({"op": "reset", "data": pre, "names": [list(n) for n in sorted(names)]}, "reset " + hx(pre)))
        ses.append(s)
    ctx.conform(exe, "ReflDB_Trace.tla", "ReflDB_Trace.cfg", ses, "database", chunk=120, par=8)
    ctx.sample({"session": [x for _, x in ses[-1]][:20]})
