"""C28: readers and writers of files; what errors say."""
import os
import random
import tempfile
from vlib.core import hx, le

NAMES = ["a", "b.bin", "c d", "\u017e.txt"]
NOWHERE = ["nodir/x", "", "missing", "nodir/deeper/y.bin", "a/b"]


def nm(s):
    return list(s.encode())


class Session:
    def __init__(self, rnd):
        self.rnd = rnd
        self.s = []
        self.add({"op": "reset"}, "reset " + " ".join(hx(nm(n)) for n in NAMES + ["missing"]))
        self.disk = {}
        self.shut = set()
        self.slots = {}             # (rw, k) -> None | dict(name, at)

    def add(self, rec, line):
        self.s.append((rec, line))

    def op(self, op, slot, line="", **kw):
        self.add(dict(kw, op=op, rw=slot[0], x="%s%d" % slot), "%s %s %d %s" % (op, slot[0], slot[1], line))

    def used(self, name):
        return [k for k, v in self.slots.items() if v and v["name"] == name]

    def free(self, rw):
        f = [(rw, k) for k in (1, 2, 3) if (rw, k) not in self.slots]
        return self.rnd.choice(f) if f else None

    def opened(self, rw=None):
        c = sorted(k for k, v in self.slots.items() if v and (rw is None or k[0] == rw))
        return self.rnd.choice(c) if c else None

    def open(self, slot, how):
        r = self.rnd
        names = [n for n in NAMES if not any(k != slot and (k[0] == "w" or slot[0] == "w") for k in self.used(n))]
        name = r.choice(NOWHERE) if r.randrange(4) == 0 or not names else r.choice(names)
        if name == "missing" and slot[0] == "w" or name == "a/b" and "a" in self.disk and slot[0] == "w" and 0:
            name = "nodir/x"
        text = r.randrange(2)
        self.op(how, slot, "%s %d" % (hx(nm(name)), text), name=nm(name), text=text)
        ok = name in self.disk and name not in self.shut if slot[0] == "r" else name in NAMES and name not in self.shut
        if ok:
            self.slots[slot] = {"name": name, "at": 0}
            if slot[0] == "w":
                self.disk[name] = 0
        elif how == "open":
            self.slots[slot] = None
            self.op("valid", slot)
        if how == "open" and ok or how == "make" and ok:
            self.op("valid", slot)
            sw = r.randrange(2)
            self.op("swap", slot, str(sw), n=sw)
        if not ok and how == "make":
            self.slots.pop(slot, None)

    def look(self):
        r = self.rnd
        name = r.choice(NAMES)
        if name not in self.shut and not [k for k in self.used(name) if k[0] == "w"]:
            self.add({"op": "cat", "name": nm(name)}, "cat " + hx(nm(name)))

    def data(self):
        r = self.rnd
        n = r.choice((0, 1, 2, 3, 7, 16, 100, 600)) if r.randrange(40) else 9000
        return [r.randrange(256) for _ in range(n)] if n < 5000 else [r.randrange(256)] * n

    def step(self):
        r = self.rnd
        k = r.choice(("put", "cat", "mode", "new", "make", "make", "make", "open", "open", "move", "move", "del", "use", "use", "use", "use", "use", "past"))
        if k == "put":
            c = [n for n in NAMES if not self.used(n) and n not in self.shut]
            if c:
                n, d = r.choice(c), self.data()
                self.add({"op": "put", "name": nm(n), "d": d}, "put %s %s" % (hx(nm(n)), hx(d)))
                self.disk[n] = len(d)
        elif k == "cat":
            self.look()
        elif k == "mode":
            c = [n for n in self.disk if not self.used(n)]
            if c:
                n = r.choice(c)
                on = int(n in self.shut)
                self.add({"op": "mode", "name": nm(n), "n": on}, "mode %s %d" % (hx(nm(n)), on))
                self.shut ^= {n}
        elif k in ("new", "make"):
            s = self.free(r.choice("rw"))
            if s and k == "new":
                self.op("new", s)
                self.slots[s] = None
                self.open(s, "open")
            elif s:
                self.open(s, "make")
        elif k == "open" and self.slots:
            self.open(r.choice(sorted(self.slots)), "open")
        elif k == "move":
            c = [x for x in self.slots if self.slots[x]]
            if c:
                x = r.choice(sorted(c))
                y = self.free(x[0])
                if y:
                    self.op("move", x, str(y[1]), y="%s%d" % y)
                    self.slots[y] = self.slots.pop(x)
                    what = r.randrange(3)
                    if what == 0:
                        self.op("del", x)
                    else:
                        self.slots[x] = None      # opened again or gone later
                        if what == 1:
                            self.open(x, "open")
        elif k == "del" and self.slots:
            x = r.choice(sorted(self.slots))
            v = self.slots.pop(x)
            self.op("del", x)
            if v and x[0] == "w":
                self.add({"op": "cat", "name": nm(v["name"])}, "cat " + hx(nm(v["name"])))
        elif k == "use":
            x = self.opened()
            if not x:
                return
            v = self.slots[x]
            size = self.disk[v["name"]]
            what = r.choice(("tell", "size", "seek", "io", "io", "io", "io16", "io16"))
            if what in ("tell", "size"):
                self.op(what, x)
            elif what == "seek":
                v["at"] = r.randrange(size + 1)
                self.op("seek", x, str(v["at"]), n=v["at"])
            elif x[0] == "r":
                if what == "io16":
                    if v["at"] + 2 <= size:
                        self.op("read16", x)
                        # these lines name the slot only
                        self.s[-1] = (self.s[-1][0], "read16 %d" % x[1])
                        v["at"] += 2
                else:
                    n = r.randrange(0, size - v["at"] + 1)
                    self.op("read", x, n=n)
                    self.s[-1] = (self.s[-1][0], "read %d %d" % (x[1], n))
                    v["at"] += n
            else:
                d = [r.randrange(256) for _ in range(2)] if what == "io16" else self.data()
                name = "write16" if what == "io16" else "write"
                self.op(name, x, d=d)
                self.s[-1] = (self.s[-1][0], "%s %d %s" % (name, x[1], hx(d)))
                v["at"] += len(d)
                self.disk[v["name"]] = max(size, v["at"])
        elif k == "past" and r.randrange(3) == 0:
            x = self.opened("r")
            if x:
                v = self.slots[x]
                n = self.disk[v["name"]] - v["at"] + r.randrange(1, 9)
                self.op("read", x, n=n)
                self.s[-1] = (self.s[-1][0], "read %d %d" % (x[1], n))
                self.slots[x] = None
                self.open(x, "open")


def errors(rnd, many):
    s = [({"op": "reset"}, "reset")]

    def e(k, line="", **kw):
        s.append((dict(kw, op="error", k=k), "error %s %s" % (k, line)))
    for k in ("plainfile", "plainaccess", "plainheader", "plainversion", "plainend"):
        e(k)
    for t in ["a", "", "folder/file name.bin", "\u017elu\u0165", "x" * 500, "100%s %d"]:
        for k in ("file", "access", "header"):
            e(k, hx(nm(t)), s=nm(t))
    for v in [0, 1, 9, 10, 255, 65536, 1 << 32, (1 << 64) - 1] + [rnd.getrandbits(rnd.randrange(1, 65)) for _ in range(20)]:
        e("version", str(v), s=nm(str(v)))
    for _ in range(many):
        w = rnd.choice((1, 2, 4, 4, 8, 8))
        k = rnd.randrange(5)
        b = [rnd.choice(b"AZaz09DXT1") for _ in range(w)] if k < 3 else [rnd.choice((0x20, 0x2f, 0x3a, 0x40, 0x5b, 0x60, 0x7b, 0x7f, 0x80, 0xff, 1, 15, 16, 65)) for _ in range(w)]
        if k in (1, 4):
            b[rnd.randrange(w)] = rnd.choice((0, 0, 0xe1, 9, 0x41))
        n = rnd.choice((-1, -1, w, rnd.randrange(1, w + 1)))
        e("magic", "%s %d" % (hx(b), n), b=b, n=n)
    return s


def run(ctx):
    ctx.model_check("Files_MC.tla", "Files_MC_big.cfg" if ctx.thorough else "Files_MC.cfg",
                    what="readers and writers of two files opened, moved, used and closed in all orders; characters of all headers of two bytes")
    rnd = random.Random(ctx.seed)
    exe = ctx.build("files")
    ses = []
    for _ in range(3000 if ctx.thorough else 300):
        s = Session(rnd)
        while len(s.s) < 60:
            s.step()
        for x in sorted(s.slots, key=lambda _: rnd.random()):
            s.op("del", x)
        for n in NAMES:
            if n not in s.shut:
                s.add({"op": "cat", "name": nm(n)}, "cat " + hx(nm(n)))
        ses.append(s.s)
    ses.append(errors(rnd, 4000 if ctx.thorough else 500))

    def cwd():
        d = tempfile.mkdtemp(dir=ctx.work)
        os.chmod(d, 0o777)
        return d
    ctx.conform(exe, "Files_Trace.tla", "Files_Trace.cfg", ses, "files", chunk=2500, unpriv=True, cwd_factory=cwd)
    ctx.sample({"session": [y[:120] for _, y in ses[0]][:30]})
