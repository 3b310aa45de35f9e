"""C01: positions of binary readers and writers."""
import random
from vlib.core import hx

ASSUMPTIONS = ["seeks stay inside the stream; std::stringstream and std::fstream behave as the C++ standard says"]


# lengths of what streams begin with, and the one they are told by
FAR = [3 << 29, 3 << 30, 5 << 30, 1 << 31, 1 << 32, 1 << 44]
TOLD = 1 << 20


def line(o):
    k = o["op"]
    if k == "write":
        return "write " + hx(o["b"])
    if k == "read":
        return "read %d" % o["n"]
    if "n" in o:
        return "%s %s %d" % (k, o["c"], o["n"])
    return "%s %s" % (k, o["c"])


def sim(prog, base=0):
    """size and reader position after a program (the driver is told how much remains)"""
    size = base
    pos = {"r": 0, "w": 0}
    org = {"r": 0, "w": 0}
    sv = {"r": 0, "w": 0}
    for o in prog:
        k = o["op"]
        c = o.get("c", "w" if k == "write" else "r")
        n = o.get("n", 0)
        if k == "write":
            pos["w"] += len(o["b"])
        elif k == "read":
            pos["r"] += n
        elif k == "seekb":
            pos[c] = org[c] + n
        elif k == "seekc" or k == "skip":
            pos[c] += n
        elif k == "seeke":
            pos[c] = size + n
        elif k == "push":
            sv[c] = pos[c]
        elif k == "pop":
            pos[c] = sv[c]
        elif k in ("org", "orgn"):
            org[c] = n
            if k == "org":
                pos[c] = n
        elif k in ("rorg", "rorgn"):
            org[c] = 0
            if k == "rorg":
                pos[c] = 0
        elif k == "pad":
            m = (pos[c] - org[c]) % n
            pos[c] += n - m if m else 0
        if c == "w":
            size = max(size, pos["w"])
    return size, pos["r"]


def inside(w, r, size):
    for i in range(len(r)):
        if not 0 <= sim(w + r[:i + 1])[1] <= size:
            return False
    return True


def run(ctx):
    ctx.model_check("Cursor_MC.tla", "Cursor_MC.cfg" if ctx.thorough else "Cursor_MCq.cfg",
                    what="two cursors over a short stream")
    ctx.model_check("Cursor_MC.tla", "Cursor_MCf.cfg", what="two cursors over a stream that begins with zeros")
    progs = ctx.generate("Cursor_Gen.tla", "Cursor_Gen.cfg", num=1500 if ctx.thorough else 300, depth=31)
    far = ctx.generate("Cursor_Gen.tla", "Cursor_GenFar.cfg", num=1500 if ctx.thorough else 250, depth=31)
    exe = ctx.build("cursor")
    rnd = random.Random(ctx.seed)
    ses, fses = [], []
    for p in progs:
        ops = [({**o}, line(o)) for o in p]
        size, rp = sim(p)
        tail = [({"op": "dump"}, "dump")]
        s = [({"op": "reset", "base": 0}, "reset ss")] + ops + tail
        if size >= rp:
            s.append(({"op": "past"}, "past %d %d" % (rnd.randrange(1, 5), size - rp)))
        ses.append(s)
        # the same behaviour on real files: first the writer's calls, then the reader's
        w = [o for o in p if o.get("c", "w" if o["op"] == "write" else "r") == "w"]
        size, _ = sim(w)
        if size:
            r = []
            for o in p:
                if o in w:
                    continue
                z, _ = sim(w + r + [o])
                if z == size and inside(w, r + [o], size):
                    r.append(o)
            fses.append([({"op": "reset", "base": 0}, "reset file")] + [({**o}, line(o)) for o in w] + tail +
                        [({"op": "reopen"}, "reopen")] + [({**o}, line(o)) for o in r])
    ctx.conform(exe, "Cursor_Trace.tla", "Cursor_Trace.cfg", ses, "stringstream", chunk=3000)
    # the same in streams that begin with gigabytes of zeros
    ases = []
    for i, p in enumerate(far):
        s = [({"op": "reset", "base": TOLD}, "reset far %d" % FAR[i % len(FAR)])] + [({**o}, line(o)) for o in p]
        s.append(({"op": "dump"}, "dump"))
        size, rp = sim(p, TOLD)
        if size - 3000 <= rp <= size:
            s.append(({"op": "past"}, "past %d %d" % (rnd.randrange(1, 5), size - rp)))
        ases.append(s)
    ctx.conform(exe, "Cursor_Trace.tla", "Cursor_Trace.cfg", ases, "far", chunk=2000)
    # long ways in one step
    lses = []
    for n in (4096, 32767, 32768, 65535, 65536, 70001)[:6 if ctx.thorough else 4] + (70001,):
        p = [{"op": "write", "b": [rnd.randrange(1, 256) for _ in range(50)]}, {"op": "seekb", "c": "w", "n": 20},
             {"op": "skip", "c": "w", "n": n}, {"op": "write", "b": [7, 8, 9]}, {"op": "size", "c": "r"}, {"op": "skip", "c": "r", "n": n},
             {"op": "skip", "c": "r", "n": 5 - n}, {"op": "skip", "c": "w", "n": 10 - n}, {"op": "write", "b": [1, 2]}]
        lses.append([({"op": "reset", "base": 0}, "reset ss")] + [({**o}, line(o)) for o in p] + [({"op": "dump"}, "dump")])
    ctx.conform(exe, "Cursor_Trace.tla", "Cursor_Trace.cfg", lses, "long", chunk=20)
    # file sessions share one file name: one directory per chunk
    import os
    import tempfile

    def cwd():
        d = tempfile.mkdtemp(dir=ctx.work)
        return d
    ctx.conform(exe, "Cursor_Trace.tla", "Cursor_Trace.cfg", fses, "file", chunk=2000, cwd_factory=cwd)
    ctx.sample({"program": [line(o) for o in progs[0]]})
