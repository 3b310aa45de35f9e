"""C21: handles, lists, and calls left to their defaults."""
import random


def session(rnd, nops):
    s = [({"op": "reset"}, "reset")]
    h = {x: None for x in range(1, 7)}            # (id, own)
    store, lists, nid = set(), {k: [] for k in range(1, 5)}, [0]

    def new():
        nid[0] += 1
        return nid[0]

    def held(i):
        return any(v and v[0] == i for v in h.values())
    while len(s) < nops:
        k = rnd.choice(("new", "new", "borrow", "move", "move", "drop", "unstore", "push", "push", "erase", "at", "at", "iter", "size", "whole"))
        x = rnd.randrange(1, 7)
        n = rnd.randrange(1, 5)
        if k == "new":
            i = new()
            s.append(({"op": k, "h": x, "id": i}, "new %d %d %d" % (x, i, rnd.randrange(4) if x < 4 else rnd.randrange(3))))
            h[x] = (i, True)
        elif k == "borrow":
            i = rnd.choice(sorted(store)) if store and rnd.randrange(2) else new()
            store.add(i)
            s.append(({"op": k, "h": x, "id": i}, "borrow %d %d" % (x, i)))
            h[x] = (i, False)
        elif k == "move":
            g = rnd.randrange(1, 7)
            if g == x or (x < 4 and g > 3):
                continue
            s.append(({"op": k, "h": x, "g": g}, "move %d %d" % (x, g)))
            h[x], h[g] = h[g], None
        elif k == "drop":
            s.append(({"op": k, "h": x}, "drop %d %d" % (x, rnd.randrange(2))))
            h[x] = None
        elif k == "unstore":
            free = [i for i in sorted(store) if not held(i)]
            if free:
                i = rnd.choice(free)
                store.discard(i)
                s.append(({"op": k, "id": i}, "unstore %d" % i))
        elif k == "push":
            if n == 1 and any(v and v[0] in lists[1] for v in h.values()):
                continue                          # may move its items
            i = new()
            lists[n].append(i)
            s.append(({"op": k, "k": n, "id": i}, "push %d %d" % (n, i)))
        elif k == "erase":
            if not lists[n] or (n == 1 and any(held(i) for i in lists[1])):
                continue
            i = rnd.randrange(len(lists[n]))
            if n < 4 and held(lists[n][i]):
                continue
            del lists[n][i]
            s.append(({"op": k, "k": n, "i": i + 1}, "erase %d %d" % (n, i + 1)))
        elif k == "at":
            i = rnd.choice((1, len(lists[n]), len(lists[n]) + 1, rnd.randrange(1, len(lists[n]) + 3))) or 1
            x = rnd.randrange(4, 7)
            s.append(({"op": k, "k": n, "i": i, "h": x}, "at %d %d %d %d" % (n, i, x, rnd.randrange(4))))
            if n < 4 and i <= len(lists[n]):
                h[x] = (lists[n][i - 1], False)
        elif k == "iter":
            s.append(({"op": k, "k": n}, "iter %d %d %d" % (n, rnd.randrange(3), rnd.randrange(3))))
        elif k == "size":
            s.append(({"op": k, "k": n}, "size %d" % n))
        elif k == "whole":
            n = rnd.randrange(1, 4)
            ids = [new() for _ in range(rnd.randrange(5))]
            own = rnd.randrange(2)
            s.append(({"op": k, "ids": ids, "own": own}, "whole %d %d %s" % (n, own, " ".join(map(str, ids)))))
    return s


def long_session():
    """lists past what a byte counts"""
    s = [({"op": "reset"}, "reset")]
    i = 0
    for n in range(1, 5):
        for _ in range(300):
            i += 1
            s.append(({"op": "push", "k": n, "id": i}, "push %d %d" % (n, i)))
        s.append(({"op": "size", "k": n}, "size %d" % n))
        for a in range(3):
            for b in range(3):
                s.append(({"op": "iter", "k": n}, "iter %d %d %d" % (n, a, b)))
        for at in (1, 128, 129, 256, 257, 299, 300, 301, 556):
            for how in range(4):
                s.append(({"op": "at", "k": n, "i": at, "h": 4}, "at %d %d 4 %d" % (n, at, how)))
        s.append(({"op": "drop", "h": 4}, "drop 4 0"))
    for n in range(1, 4):
        for own in (0, 1):
            ids = list(range(i + 1, i + 301))
            i += 300
            s.append(({"op": "whole", "ids": ids, "own": own}, "whole %d %d %s" % (n, own, " ".join(map(str, ids)))))
    return s


def run(ctx):
    ctx.model_check("Elements_MC.tla", "Elements_MC5.cfg" if ctx.thorough else "Elements_MC.cfg",
                    what="all ways of handing on up to five objects")
    exe = ctx.build("elements", repo_sources=["uni/uni_format.cpp", "datas/matrix44.cpp"])
    rnd = random.Random(ctx.seed)
    ses = [session(rnd, 80) for _ in range(800 if ctx.thorough else 120)]
    s = [({"op": "reset"}, "reset")]
    for cls, types, calls in (("bone", 2, 2), ("skin", 2, 2), ("track", 6, 4)):
        for t in range(types):
            for c in range(calls):
                for over in range(1 << calls):
                    s.append(({"op": "call", "cls": cls, "type": t, "call": c, "over": [b for b in range(calls) if over >> b & 1]},
                              "call %s %d %d %d" % (cls, t, c, over)))
    for o in (0, 1):
        s.append(({"op": "rate", "over": o}, "rate %d" % o))
    ses.append(s)
    s = [({"op": "reset"}, "reset")]
    for _ in range(400 if ctx.thorough else 60):
        for how in range(4):
            lo, hi = ([rnd.choice((0, 1, -1, 2, rnd.randrange(-999, 1000))) for _ in range(4)] for _ in "ab")
            vs = [[rnd.choice((0, 1, -1, rnd.randrange(-999, 1000))) for _ in range(4)] for _ in range(rnd.randrange(5))]
            s.append(({"op": "resample", "how": how, "lo": lo, "hi": hi, "vs": vs},
                      "resample %d %s" % (how, " ".join(str(x) for v in [lo, hi] + vs for x in v))))
    ses.append(s)
    ses.append(long_session())
    ctx.conform(exe, "Elements_Trace.tla", "Elements_Trace.cfg", ses, "elements", chunk=1500)
    ctx.sample({"session": [y for _, y in ses[0]][:12]})
