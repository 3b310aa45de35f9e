"""C12: Python objects of skeletons and motions."""
import glob
import os
import random
from vlib.core import hx

NAMES = ["root", "", "Bip01 L Hand", "spine", "p\u0159\u00edli\u0161", "\u65e5\u672c", "a\0b", "x" * 300, "root"]
ATTRS = {1: ["name", "index", "tm_type", "transform", "parent"], 3: ["name", "bones"], 5: ["track_type", "bone_index"],
         7: ["name", "duration", "motion_type", "framerate", "tracks"]}
LISTS = (2, 4, 6, 8)
EVERY = sorted({a for v in ATTRS.values() for a in v} | {"nothing", "items"})


def thing(i, kind, rnd, ref=0, items=(), fresh=None, a=None, name=None):
    th = {"kind": kind, "a": rnd.randrange({1: 3, 5: 7, 7: 4}.get(kind, 1)) if a is None else a,
          "b": rnd.choice((0, 1, 30, 60, 255, 256, 65536, rnd.randrange(1 << 31), i)), "dur": rnd.randrange(-9, 4000), "ref": ref,
          "fresh": rnd.randrange(2) if fresh is None else fresh, "name": list((name if name is not None else rnd.choice(NAMES)).encode()),
          "items": list(items), "v": [rnd.randrange(-1000, 1000) for _ in range(16)]}
    line = "thing %d %d %d %d %d %d %d %s %d %s %s" % (i, kind, th["a"], th["b"], th["dur"], ref, th["fresh"], hx(th["name"]), len(items),
                                                        " ".join(map(str, items)), " ".join(map(str, th["v"])))
    return th, ({"op": "thing", "id": i, "th": th}, line)


class Session:
    def __init__(self, rnd):
        self.rnd = rnd
        self.s = [({"op": "reset"}, "reset")]
        self.w = {}
        self.h = {}             # handle -> object number
        self.o = []             # thing, own
        self.loops = {}         # object -> the handle looping last

    def add(self, rec, line):
        self.s.append((rec, line))

    def thing(self, kind, **kw):
        i = len(self.w) + 1
        th, op = thing(i, kind, self.rnd, **kw)
        self.w[i] = th
        self.s.append(op)
        return i

    def world(self, nb=None, nt=None):
        r = self.rnd
        bones = []
        for k in range(r.randrange(0, 7) if nb is None else nb):
            bones.append(self.thing(1, ref=r.choice([0] + bones), name=None if r.randrange(3) else "bone%d" % k))
        tracks = [self.thing(5, a=k % 7 if nt else None) for k in range(r.randrange(0, 7) if nt is None else nt)]
        self.bones, self.tracks = bones, tracks

        def some(xs):
            return [r.choice(xs) for _ in range(r.randrange(0, 6))] if xs and r.randrange(2) else list(xs)
        skels = [self.thing(3, ref=self.thing(2, items=some(bones))) for _ in range(r.randrange(1, 4))]
        motions = [self.thing(7, ref=self.thing(6, items=some(tracks))) for _ in range(r.randrange(1, 4))]
        lists = [self.thing(4, items=some(skels)), self.thing(8, items=some(motions))]
        self.tops = skels + motions + lists
        # made for one owner each, reached from nowhere else
        self.spare = [self.thing(k, ref=self.w[x]["ref"]) for k, x in ((3, skels[0]), (7, motions[0]), (3, skels[-1]))]
        self.spare += [self.thing(4, items=skels), self.thing(8, items=motions)]

    def free(self):
        f = [x for x in range(1, 10) if x not in self.h]
        if not f:
            x = self.rnd.choice(sorted(self.h))
            self.delete(x)
            return x
        return self.rnd.choice(f)

    def kind(self, x):
        return self.w[self.o[self.h[x]][0]]["kind"]

    def th(self, x):
        return self.w[self.o[self.h[x]][0]]

    def delete(self, x):
        self.add({"op": "del", "h": x}, "del %d" % x)
        del self.h[x]

    def put(self, x, t, own):
        self.o.append((t, own))
        self.h[x] = len(self.o) - 1

    def wrap(self):
        r = self.rnd
        x = self.free()
        own = bool(self.spare) and r.randrange(3) == 0
        t = self.spare.pop(r.randrange(len(self.spare))) if own else r.choice(self.tops)
        self.add({"op": "wrap", "h": x, "id": t, "own": int(own)}, "wrap %d %d %d" % (x, t, own))
        self.put(x, t, int(own))
        return x

    def of(self, *kinds):
        c = [x for x in self.h if self.kind(x) in kinds]
        return self.rnd.choice(sorted(c)) if c else None

    def get(self, g, n=None):
        r = self.rnd
        x = self.free()
        if g not in self.h:
            return
        items = self.th(g)["items"]
        if n is None:
            n = r.choice((0, len(items) - 1, len(items), -1, r.randrange(-3, len(items) + 3), 1 << 20, "str", "float"))
        other = isinstance(n, str)
        self.add({"op": "get", "h": x, "g": g, "k": "other" if other else "int", "n": 0 if other else n}, "get %d %d %s" % (x, g, n))
        if not other and 0 <= n < len(items):
            self.put(x, items[n], 2 if self.th(g)["fresh"] else 0)

    def attr(self, g, n):
        x = self.free()
        if g not in self.h:
            return
        th = self.th(g)
        led = n in ("parent", "bones", "tracks") and n in ATTRS.get(th["kind"], ()) and th["ref"]
        self.add({"op": "attr", "g": g, "n": n, "h": x}, "attr %d %s %d" % (g, n, x if led else 0))
        if led:
            self.put(x, th["ref"], 0 if n == "parent" or not th["fresh"] else 2)
            return x

    def iter(self, g):
        x = self.free()
        if g not in self.h:
            return
        self.add({"op": "iter", "h": x, "g": g}, "iter %d %d" % (x, g))
        self.h[x] = self.h[g]
        self.loops[self.h[g]] = [x, 0]
        return x

    def next(self, o):
        x = self.free()
        g, at = self.loops[o]
        if self.h.get(g) != o:
            del self.loops[o]
            return False
        th = self.w[self.o[o][0]]
        self.add({"op": "next", "h": x, "g": g}, "next %d %d" % (x, g))
        if at < len(th["items"]):
            self.put(x, th["items"][at], 2 if th["fresh"] else 0)
            self.loops[o][1] += 1
            return True
        return False

    def values(self, g):
        r = self.rnd
        k = r.randrange(8)
        if k == 0:
            bad = r.choice(("str", "float", "3"))
            self.add({"op": "novalues", "g": g, "k": "other"}, "novalues %d %s" % (g, bad))
            return
        ts = [r.choice((0, 4, -4, r.randrange(-1000, 1000))) for _ in range(r.randrange(0, 6))]
        ws = ["i%d" % (t // 4) if t % 4 == 0 and r.randrange(2) else str(t) for t in ts]
        other = k == 1
        if other:
            ws.insert(r.randrange(len(ws) + 1), "str")
        self.add({"op": "values", "g": g, "k": "other" if other else "list", "times": ts}, "values %d %s" % (g, " ".join(ws)))

    def step(self):
        r = self.rnd
        k = r.choice(("wrap", "wrap", "del", "del", "same", "len", "get", "get", "get", "iter", "next", "next", "next", "all", "attr", "attr", "attr",
                      "attr", "set", "values", "values", "cmp"))
        if k == "wrap" or not self.h:
            self.wrap()
            return
        any_ = r.choice(sorted(self.h))
        ls = self.of(*LISTS)
        if k == "del":
            self.delete(any_)
        elif k == "same":
            x = self.free()
            if any_ in self.h:
                self.add({"op": "same", "h": x, "g": any_}, "same %d %d" % (x, any_))
                self.h[x] = self.h[any_]
        elif k == "len" and ls:
            self.add({"op": "len", "g": ls}, "len %d" % ls)
        elif k == "get" and ls:
            self.get(ls)
        elif k == "iter" and ls:
            self.iter(ls)
        elif k == "next" and self.loops:
            self.next(r.choice(sorted(self.loops)))
        elif k == "all" and ls:
            self.add({"op": "all", "g": ls}, "all %d" % ls)
            self.loops.pop(self.h[ls], None)
        elif k == "attr":
            ks = ATTRS.get(self.kind(any_))
            self.attr(any_, r.choice(ks) if ks and r.randrange(8) else r.choice(EVERY))
        elif k == "set":
            g = self.of(7) or any_
            n = "framerate" if r.randrange(5) else "name"
            v = r.choice((0, 1, 30, 60, r.randrange(1 << 31), "str", "del"))
            kd = "int" if not isinstance(v, str) else "other"
            # what attributes of others do is Python's own
            if n == "framerate" and self.kind(g) == 7 or n == "name":
                self.add({"op": "set", "g": g, "n": n, "k": kd, "r": v if kd == "int" else 0}, "set %d %s %s" % (g, n, v))
                if kd == "int" and n == "framerate":
                    self.attr(g, "framerate")
        elif k == "values":
            g = self.of(5)
            if g:
                self.values(g)
        elif k == "cmp":
            g, h = self.of(1), self.of(1)
            if g and h:
                self.add({"op": "cmp", "g": g, "h": h}, "cmp %d %d" % (g, h))


def whole(rnd):
    """everything there is, once through"""
    s = Session(rnd)
    s.world(nb=4, nt=7)
    for t in list(s.tops):
        s.add({"op": "wrap", "h": 1, "id": t, "own": 0}, "wrap 1 %d 0" % t)
        s.put(1, t, 0)
        for n in EVERY:
            if n not in ("bones", "tracks", "parent"):
                s.attr(1, n)
        stack = [1]
        while stack:
            g = stack.pop()
            if s.kind(g) in (3, 7):
                x = s.attr(g, "bones" if s.kind(g) == 3 else "tracks")
                stack.append(x)
                continue
            th = s.th(g)
            s.add({"op": "all", "g": g}, "all %d" % g)
            s.add({"op": "len", "g": g}, "len %d" % g)
            it = s.iter(g)
            o = s.h[it]
            more = True
            while more:
                before = set(s.h)
                more = s.next(o)
                for x in sorted(set(s.h) - before):
                    for n in ATTRS[s.kind(x)]:
                        y = s.attr(x, n)
                        if y:
                            s.delete(y)
                    if s.kind(x) == 5:
                        for _ in range(4):
                            s.values(x)
                    s.delete(x)
            s.delete(it)
            for n in range(-1, len(th["items"]) + 1):
                before = set(s.h)
                s.get(g, n)
                for x in sorted(set(s.h) - before):
                    s.delete(x)
        for x in sorted(s.h):
            s.delete(x)
    return s.s


def long_lists(rnd):
    """lists past what a byte counts"""
    s = Session(rnd)
    bones = [s.thing(1, name="bone%d" % k) for k in range(300)]
    tracks = [s.thing(5, a=k % 6) for k in range(260)]
    for kind, items in ((2, bones), (6, tracks)):
        for fresh in (0, 1):
            top = s.thing(kind + 1, ref=s.thing(kind, items=items, fresh=fresh))
            s.add({"op": "wrap", "h": 1, "id": top, "own": 0}, "wrap 1 %d 0" % top)
            s.put(1, top, 0)
            g = s.attr(1, "bones" if kind == 2 else "tracks")
            s.add({"op": "len", "g": g}, "len %d" % g)
            s.add({"op": "all", "g": g}, "all %d" % g)
            for n in (0, 127, 128, 255, 256, 257, len(items) - 1, len(items), len(items) + 256, -1, -len(items), -256):
                before = set(s.h)
                s.get(g, n)
                for x in sorted(set(s.h) - before):
                    s.attr(x, "name" if kind == 2 else "bone_index")
                    s.delete(x)
            it = s.iter(g)
            o = s.h[it]
            more = True
            while more:
                before = set(s.h)
                more = s.next(o)
                for x in sorted(set(s.h) - before):
                    s.delete(x)
            for x in sorted(s.h):
                s.delete(x)
    return s.s


def enums(rnd, defs):
    from collections import OrderedDict
    known = OrderedDict([("uniBoneTMType", ["TMTYPE_RTS", "TMTYPE_MATRIX"]),
                         ("uniMotionTrackType", ["Position", "Rotation", "Scale", "Matrix", "PositionRotationScale", "SingleFloat"]),
                         ("uniMotionType", ["Absolute", "Relative", "Additive", "Delta"])])
    s = [({"op": "reset"}, "reset")]
    for which, names, table in [(w, n, None) for w, n in known.items()] + [(w, [x for x, _ in t], t) for w, t in defs.items()]:
        base = {"which": which, "table": [list(x) for x in table or []], "texts": [list(n.encode()) for n in names]}
        s.append((dict(base, op="enumlen"), "enumlen " + which))
        for n in list(range(-2, len(names) + 2)) + [1 << 30, "str", "float"]:
            other = isinstance(n, str)
            s.append((dict(base, op="enum", k="other" if other else "int", n=0 if other else n), "enum %s %s" % (which, n)))
        for n in names + ["None", "position", names[0] + "x", names[-1][:-1], "TMTYPE"]:
            s.append((dict(base, op="enumname", name=n), "enumname %s %s" % (which, hx(list(n.encode())))))
    return s


def run(ctx):
    ctx.model_check("PyWrap_MC.tla", "PyWrap_MC_big.cfg" if ctx.thorough else "PyWrap_MC.cfg",
                    what="references to lists and their items taken, looped over and let go in all orders")
    rnd = random.Random(ctx.seed)
    defs = {}
    with open(ctx.work + "/pyenums.inc", "w") as f, open(ctx.work + "/pyenums_types.inc", "w") as g:
        for k in range(4):
            n, v, t = rnd.randrange(1, 9), 0, []
            for i in range(n):
                explicit = rnd.randrange(2)
                if explicit:
                    v = rnd.randrange(1 << rnd.choice((4, 8, 16, 30)))
                t.append(("v%d%s" % (i, rnd.choice("abc")), v, explicit))
                v += 1
            f.write("REFLECTOR_CREATE(EF%d, ENUM, 2, CLASS, 32, %s)\n" % (k, ", ".join(a + (" = %d" % b if e else "") for a, b, e in t)))
            g.write("PyAddType<ReflectedEnumPy<EF%d>>(module);\n" % k)
            defs["EF%d" % k] = [(a, b) for a, b, _ in t]
    inc = sorted(glob.glob("/usr/include/python3.*/Python.h"))[-1][:-len("/Python.h")]
    lib = "-l" + os.path.basename(inc)
    exe = ctx.build("pyuni", ["uni/python/uni_python.cpp", "datas/matrix44.cpp"], libs=[lib],
                    flags=["-I" + inc, "-I" + ctx.work, "-include", "py2/pyshim.hpp"])
    ses = [enums(rnd, defs), long_lists(rnd)]
    for _ in range(20 if ctx.thorough else 4):
        ses.append(whole(rnd))
    for _ in range(1500 if ctx.thorough else 150):
        s = Session(rnd)
        s.world()
        while len(s.s) < 90:
            s.step()
        for x in sorted(s.h, key=lambda _: rnd.random()):
            s.delete(x)
        ses.append(s.s)
    s = [({"op": "reset"}, "reset")]
    for _ in range(20):
        for w, n in (("2", 2), ("3", 3), ("4", 4), ("4A", 4), ("444", 12), ("4444", 16)):
            q = [rnd.randrange(-1 << 20, 1 << 20) for _ in range(n)]
            s.append(({"op": "vec", "want": w.strip("A"), "q": q}, "vec %s %s" % (w, " ".join(map(str, q)))))
    ses.append(s)
    for _ in range(6 if ctx.thorough else 2):
        s = Session(rnd)
        s.world(nb=3, nt=7)
        for t in s.tops:
            s.add({"op": "churn", "id": t}, "churn %d" % t)
        ses.append(s.s)
    ctx.conform(exe, "PyWrap_Trace.tla", "PyWrap_Trace.cfg", ses, "python", chunk=2500)
    ctx.sample({"session": [y for _, y in ses[-3]][:30]})
