"""C10: reflected objects saved in XML trees and loaded."""
import os
import random
from vlib import reflops, reflbytes
from vlib.core import hx
from comps import c09

ASSUMPTIONS = [
    "nested classes are registered; no arrays of arrays; pugixml 1.14 is part of the system",
    "trees of other programs: no text next to nodes, numbers of array items are not negative",
    "strings hold characters XML can express; arrays of strings hold none of the separators of arrays",
    "classes saved without names are looked up by the zero hash only when they have a node of their own"]

SPECIAL = ["<", ">", "&", '"', "'", "&lt;", "&amp;", "]]>", "<a/>", "<a>b</a>", "<!-- x -->", "<?x?>", "a<b", "x\ny", "tail ",
           "<![CDATA[x]]>", "a & b", "\xc3\xa9t\xc3\xa9", "  lead", "\t", " ", "&#65;", "<a", "&bad;", "a>b", "--", "%s%n", "0", "NULL"]
SINGLE = ("bool", "enum", "flt", "int", "uint", "bf")
AXES = "xyzw"


def value(r, t, inarr=False):
    if t["k"] == "str":
        if inarr:
            return list(r.choice([b"", b"a", b"text", b"two words", b"<b>", b"x&y", b"\"q\"", b"x" * 40]))
        q = r.random()
        if q < 0.6:
            return list("".join(r.choice(SPECIAL) for _ in range(r.randrange(1, 3))).encode("latin-1"))
        return reflops.rawval(r, t)
    if t["k"] == "arr":
        return [value(r, t["el"], True) for _ in range(t["cnt"])]
    if t["k"] == "class" and not t["c"]["bf"]:
        return [value(r, f["t"]) for f in t["c"]["fields"]]
    return reflops.rawval(r, t)


def esc(b, attr):
    o = b""
    for c in bytes(b):
        if c in b"<&" or (attr and c in b'"\t\n\r') or c == 13:
            o += b"&#%d;" % c
        else:
            o += bytes([c])
    return o


def xml(n):
    o = b"<" + bytes(n["n"]) + b"".join(b" " + bytes(k) + b'="' + esc(v, True) + b'"' for k, v in n["a"])
    if not n["t"] and not n["c"]:
        return o + b"/>"
    return o + b">" + esc(n["t"], False) + b"".join(xml(c) for c in n["c"]) + b"</" + bytes(n["n"]) + b">"


def node(n):
    return {"n": list(n), "a": [], "t": [], "c": []}


class Foreign:
    def __init__(self, r):
        self.r = r

    def name(self, c, f, xmlsafe=True):
        r = self.r
        q = r.random()
        nm = f["nm"]
        if q < 0.12 and f["al"]:
            nm = f["al"]
        h = b"h:%X" % reflbytes.jen(bytes(nm))
        if q > 0.75:
            h = (h, h.lower(), b"h:0" + h[2:])[r.randrange(3)]
            return h
        return h if 32 in nm else bytes(nm)

    def unknown(self):
        return self.r.choice([b"unknown", b"h:12", b"zz", b"none-2", b"x-9"])

    def text(self, t):
        for _ in range(99):
            s = reflops.text_for(self.r, t).encode()
            if b"1e" in s:           # limits of the floating point types are a matter of C07
                continue
            if s.strip() == s or self.r.random() < 0.2:
                if not s or s.strip():
                    return list(s)
        return list(b"1")

    def lay1(self, n, c):
        r = self.r
        for f in r.sample(c["fields"], len(c["fields"])):
            if r.random() < 0.3:
                continue
            t = f["t"]
            m = node(self.name(c, f))
            if t["k"] == "class":
                self.lay1(m, t["c"])
            elif t["k"] == "arr" and t["el"]["k"] == "class":
                for s in r.sample(range(t["cnt"] + 2), r.randrange(t["cnt"] + 2)):
                    s = s if r.random() < 0.9 else s + 300
                    k = node(b"%s:%d" % (r.choice([b"i", b"i", b"q"]), s))
                    self.lay1(k, t["el"]["c"])
                    m["c"].append(k)
            else:
                m["t"] = self.text(t)
            n["c"].append(m)
            if r.random() < 0.06:
                m = node(self.unknown())
                m["t"] = list(b"5")
                n["c"].append(m)

    def vec(self, m, t):
        for a in self.r.sample(AXES, self.r.randrange(1, 5)):
            m["a"].append([list(a.encode()), self.text(t["el"])])

    def flags(self, m, t):
        r = self.r
        for it in r.sample(t["items"], r.randrange(1, len(t["items"]) + 1)):
            nm = bytes(it["nm"]) if r.random() < 0.93 else b"nothing"
            m["a"].append([list(nm), list(r.choice([b"true", b"false", b"1", b"0", b"yes", b"no", b"True", b""]))])

    def lay2(self, n, c):
        r = self.r
        for f in r.sample(c["fields"], len(c["fields"])):
            if r.random() < 0.25:
                continue
            t = f["t"]
            k = t["k"]
            el = t["el"]["k"] if k == "arr" else None
            name = self.name(c, f)
            if r.random() < 0.08:
                u = node(self.unknown())
                if r.random() < 0.6:
                    u["a"].append([list(b"x"), list(b"5")])
                else:
                    u["t"] = list(b"text")
                n["c"].append(u)
            if r.random() < 0.06:
                n["a"].append([list(self.unknown()), list(b"7")])
            if k == "class" or el == "class":
                cc = t["c"] if k == "class" else t["el"]["c"]
                for s in ([None] if k == "class" else r.sample(range(t["cnt"] + 2), r.randrange(t["cnt"] + 2))):
                    if s is not None and r.random() < 0.08:
                        s = r.choice([None, s + 300])
                    m = node(name + (b"" if s is None else b"-%d" % s))
                    self.lay2(m, cc)
                    n["c"].append(m)
                continue
            q = r.random()
            if q < 0.15:                                    # the whole value in text or an attribute
                if r.random() < 0.5:
                    m = node(name)
                    m["t"] = self.text(t)
                    n["c"].append(m)
                else:
                    n["a"].append([list(name), self.text(t)])
            elif k == "vec" or k == "flags":
                m = node(name)
                (self.vec if k == "vec" else self.flags)(m, t)
                n["c"].append(m)
            elif el in ("vec", "flags"):
                for s in r.sample(range(t["cnt"] + 1), r.randrange(t["cnt"] + 2)):
                    m = node(name + b"-%d" % s)
                    (self.vec if el == "vec" else self.flags)(m, t["el"])
                    n["c"].append(m)
            elif el in SINGLE:
                for s in r.sample(range(t["cnt"] + 2), r.randrange(t["cnt"] + 2)):
                    n["a"].append([list(name + b"-%d" % s), self.text(t["el"])])
            else:
                n["a"].append([list(name), self.text(t)])

    def tree(self, slots):
        """a tree below the root r with objects of the classes, some in nodes of their own"""
        r = self.r
        root = node(b"r")
        for c in slots:
            lay = self.lay2 if r.random() < 0.6 else self.lay1
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                cn = bytes(c["cls"]) if c["named"] else b"h:0"
                if c["named"] and r.random() < 0.2:
                    cn = b"h:%X" % reflbytes.jen(cn)
                m = node(cn)
                lay(m, c)
                root["c"].append(m)
        if r.random() < 0.3 or not root["c"]:
            (self.lay2 if r.random() < 0.6 else self.lay1)(root, r.choice(slots))
        for n in self.walk(root):
            seen = set()
            n["a"] = [x for x in n["a"] if not (tuple(x[0]) in seen or seen.add(tuple(x[0])))]
        return root

    def walk(self, n):
        yield n
        for c in n["c"]:
            yield from self.walk(c)


def names(c):
    for f in c["fields"]:
        yield tuple(f["al"])


def allnames(c):
    yield tuple(c["cls"])
    for f in c["fields"]:
        yield tuple(f["nm"])
        yield tuple(f["al"])
        t = f["t"]
        while t["k"] == "arr":
            t = t["el"]
        if t["k"] == "class":
            yield from allnames(t["c"])


def run(ctx):
    ctx.model_check("ReflXml_MC.tla", "ReflXml_MC4.cfg" if ctx.thorough else "ReflXml_MC.cfg", workers=8,
                    what="short sequences of saves, loads and rewrites with two versions of a class")
    rnd = random.Random(ctx.seed * 91 + 10)
    g = c09.classes(rnd, 30 if ctx.thorough else 10)
    with open(os.path.join(ctx.work, "classes.inc"), "w") as f:
        f.write(g.source())
    exe = ctx.build("reflxml", ["datas/reflector.cpp", "datas/reflector_xml.cpp", "datas/master_printer.cpp"],
                    flags=["-I" + ctx.work, "-O1"], libs=["-lpugixml"])
    use = list(range(len(g.classes)))
    ses = []
    fg = Foreign(rnd)
    for i in use:
        for rep in range(60 if ctx.thorough else 16):
            slots = [i, i, rnd.choice(use)]
            sch = [g.classes[k]["sch"] for k in slots]
            vals = [reflops.zero_class(c) for c in sch]
            s = [({"op": "reset", "objs": [{"c": c, "v": v} for c, v in zip(sch, vals)],
                   "names": sorted(set(tuple(n) for c in sch for n in allnames(c)))},
                  "reset " + " ".join("%d %d" % (k, rnd.randrange(3)) for k in slots))]

            def raw(k):
                c = sch[k]
                if c["bf"]:
                    v = [rnd.randrange(256) for _ in range(c["w"])]
                    s.append(({"op": "raw", "s": k, "f": 0, "to": v}, "raw %d 0 %s" % (k, hx(v))))
                    return
                for f in range(len(c["fields"])):
                    if rnd.random() < 0.75:
                        t = c["fields"][f]["t"]
                        v = value(rnd, t)
                        s.append(({"op": "raw", "s": k, "f": f, "to": v}, "raw %d %d %s" % (k, f, hx(reflops.flat(t, v)))))
            for k in range(3):
                raw(k)
            paths = [[]]
            kids = 0

            def move(op, k, path, lay, own, sa):
                s.append(({"op": op, "s": k, "path": path, "lay": lay, "own": own, "sa": sa % 2},
                          "%s %d %d %d %d %s" % (op, k, lay, own, sa, hx(path))))
            for _ in range(rnd.randrange(2, 5)):
                q = rnd.random()
                lay = rnd.randrange(1, 3)
                if q < 0.35:
                    t = fg.tree([sch[k] for k in (0, 2)])
                    kids = len(t["c"])
                    s.append(({"op": "doc", "tree": t}, "doc " + hx(xml(t))))
                    for _ in range(4):
                        k = rnd.randrange(3)
                        own = int(rnd.random() < 0.7)
                        path = [] if own or not kids or rnd.random() < 0.3 else [rnd.randrange(kids) + 1]
                        move("load", k, path, rnd.randrange(1, 3), own, 0)
                else:
                    own = rnd.randrange(2)
                    k = rnd.randrange(3)
                    sa = rnd.randrange(3) if lay == 2 else 0
                    fresh = rnd.random() < 0.7
                    if fresh:
                        s.append(({"op": "doc", "tree": node(b"r")}, "doc " + hx(b"<r/>")))
                    move("save", k, [], lay, own, sa)
                    if rnd.random() < 0.4:
                        s.append(({"op": "again"}, "again"))
                    k2 = k if rnd.random() < 0.5 else 1 - k if k < 2 else rnd.randrange(3)
                    if rnd.random() < 0.8:
                        raw(k2)
                    move("load", k2, [], lay if rnd.random() < 0.85 else 3 - lay, own if rnd.random() < 0.9 else 1 - own, 0)
            ses.append(s)
    ctx.conform(exe, "ReflXml_Trace.tla", "ReflXml_Trace.cfg", ses, "xml", chunk=700, par=8)
    ctx.sample({"session": [x for _, x in ses[-1]][:20]})
