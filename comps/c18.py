"""C18: vectors linked to outside memory."""
import random

LEN = 16


def session(rnd, kind, nops):
    s = [({"op": "reset"}, "reset " + kind)]
    link = {v: None for v in range(1, 5)}       # (region, from, cap)
    size = {v: 0 for v in range(1, 5)}

    def changed(v, n):
        if link[v] and n > link[v][2]:
            link[v] = None
        size[v] = n
    while len(s) < nops:
        v, w = rnd.sample(range(1, 5), 2)
        x = rnd.randrange(100, 120)
        n = size[v]
        k = rnd.choice(("link", "link", "push", "push", "push", "pop", "put", "insert", "erase", "resize", "assign", "clear",
                        "reserve", "dispose", "copy", "copyto", "move", "swap"))
        ro = link[v] and link[v][0] == 3
        cap = link[v][2] if link[v] else 0
        if k == "link":
            r = rnd.choice((1, 1, 2, 3))
            c = rnd.choice((0, 1, 2, 3, rnd.randrange(LEN + 1)))
            f = rnd.randrange(LEN - c + 1)
            if r != 3 and any(u != v and link[u] and link[u][0] == r and link[u][1] < f + c and f < link[u][1] + link[u][2] for u in link):
                continue
            s.append(({"op": k, "v": v, "r": r, "from": f, "n": c}, "link %d %d %d %d %d" % (v, r, f, c, rnd.randrange(2))))
            link[v] = (r, f, c) if c else None
            size[v] = c
        elif k == "push":
            if n > 40 or (ro and n < cap):
                continue
            s.append(({"op": k, "v": v, "x": x}, "push %d %d %d" % (v, x, rnd.randrange(2))))
            changed(v, n + 1)
        elif k == "pop" and n:
            s.append(({"op": k, "v": v}, "pop %d" % v))
            changed(v, n - 1)
        elif k == "put" and n and not ro:
            i = rnd.randrange(1, n + 1)
            s.append(({"op": k, "v": v, "i": i, "x": x}, "put %d %d %d" % (v, i, x)))
        elif k == "insert" and n < 40 and not (ro and n < cap):
            i = rnd.choice((1, n + 1, rnd.randrange(1, n + 2)))
            s.append(({"op": k, "v": v, "i": i, "x": x}, "insert %d %d %d" % (v, i, x)))
            changed(v, n + 1)
        elif k == "erase" and n and not ro:
            i = rnd.choice((1, n, rnd.randrange(1, n + 1)))
            s.append(({"op": k, "v": v, "i": i}, "erase %d %d" % (v, i)))
            changed(v, n - 1)
        elif k == "resize":
            m = rnd.choice((0, n, n + 1, cap, cap + 1, rnd.randrange(24)))
            if ro and n < m <= cap:
                continue
            how = rnd.randrange(2)
            s.append(({"op": k, "v": v, "n": m, "x": x if how else 0}, "resize %d %d %d %d" % (v, m, x, how)))
            changed(v, m)
        elif k == "assign" and not ro:
            m = rnd.choice((0, 1, cap, cap + 1, rnd.randrange(24)))
            s.append(({"op": k, "v": v, "n": m, "x": x}, "assign %d %d %d" % (v, m, x)))
            changed(v, m)
        elif k == "clear" and rnd.randrange(2):
            s.append(({"op": k, "v": v}, "clear %d" % v))
            changed(v, 0)
        elif k == "reserve":
            m = rnd.choice((0, cap, cap + 1, rnd.randrange(30)))
            s.append(({"op": k, "v": v, "n": m}, "reserve %d %d" % (v, m)))
            if link[v] and m > cap:
                link[v] = None
        elif k == "dispose" and rnd.randrange(2):
            s.append(({"op": k, "v": v}, "dispose %d %d" % (v, rnd.randrange(2))))
            link[v], size[v] = None, 0
        elif k == "copy":
            s.append(({"op": k, "v": v, "w": w}, "copy %d %d" % (v, w)))
            link[v], size[v] = None, size[w]
        elif k == "copyto" and not ro:
            if link[v] and size[w] <= cap:      # what it is afterwards is not known here
                s.append(({"op": k, "v": v, "w": w}, "copyto %d %d" % (v, w)))
                s.append(({"op": "dispose", "v": v}, "dispose %d 0" % v))
                link[v], size[v] = None, 0
            else:
                s.append(({"op": k, "v": v, "w": w}, "copyto %d %d" % (v, w)))
                link[v], size[v] = None, size[w]
        elif k == "move":
            s.append(({"op": k, "v": v, "w": w}, "move %d %d %d" % (v, w, rnd.randrange(2))))
            link[v], size[v], link[w], size[w] = link[w], size[w], None, 0
        elif k == "swap":
            s.append(({"op": k, "v": v, "w": w}, "swap %d %d %d" % (v, w, rnd.randrange(2))))
            link[v], size[v], link[w], size[w] = link[w], size[w], link[v], size[v]
    return s


def long_session(rnd):
    """out of the link and far beyond it"""
    s = [({"op": "reset"}, "reset 1")]

    def op(line, **rec):
        s.append((rec, line))
    op("link 1 1 2 3 0", op="link", v=1, r=1, n=3, **{"from": 2})
    for i in range(300):
        op("push 1 %d %d" % (i % 90 + 20, i % 2), op="push", v=1, x=i % 90 + 20)
    for i in (1, 128, 129, 256, 257, 303):
        op("put 1 %d 9" % i, op="put", v=1, i=i, x=9)
    op("insert 1 257 8", op="insert", v=1, i=257, x=8)
    op("erase 1 256", op="erase", v=1, i=256)
    op("copy 2 1", op="copy", v=2, w=1)
    op("link 3 2 0 5 1", op="link", v=3, r=2, n=5, **{"from": 0})
    op("copyto 3 1", op="copyto", v=3, w=1)
    op("move 4 1 0", op="move", v=4, w=1)
    op("swap 4 3 1", op="swap", v=4, w=3)
    op("link 1 1 0 4 0", op="link", v=1, r=1, n=4, **{"from": 0})
    op("resize 1 256 0 0", op="resize", v=1, n=256, x=0)
    op("resize 1 257 7 1", op="resize", v=1, n=257, x=7)
    op("dispose 1 0", op="dispose", v=1)
    op("link 1 1 0 4 0", op="link", v=1, r=1, n=4, **{"from": 0})
    op("assign 1 260 6", op="assign", v=1, n=260, x=6)
    op("reserve 2 600", op="reserve", v=2, n=600)
    for v in (4, 3, 2, 1):
        op("resize %d 2 0 0" % v, op="resize", v=v, n=2, x=0)
        op("clear %d" % v, op="clear", v=v)
    return s


def run(ctx):
    ctx.model_check("HybridVec_MC.tla", "HybridVec_MC6.cfg" if ctx.thorough else "HybridVec_MC.cfg",
                    what="two vectors linked to parts of a region, all short histories")
    exe = ctx.build("hybridvec")
    rnd = random.Random(ctx.seed)
    ses = [session(rnd, k, 80) for k in ("1", "4", "3") for _ in range(300 if ctx.thorough else 40)]
    ses += [long_session(rnd)] * 2
    ctx.conform(exe, "HybridVec_Trace.tla", "HybridVec_Trace.cfg", ses, "vectors", chunk=1200)
    ctx.sample({"session": [y for _, y in ses[0]][:12]})
