"""C19: offsets made pointers in place."""
import random

ROOM = 1 << 20


def session(rnd, wide, N, nops):
    s = [({"op": "reset", "n": N}, "reset %d %d" % (64 if wide else 32, N))]
    raw = {i: 0 for i in range(1, N + 1)}         # None: a pointer

    def place(i):                                 # not the slot itself, which is null for a self relative one
        while True:
            a = rnd.choice((ROOM + 8 * rnd.randrange(N), rnd.randrange(1, 3 * ROOM), ROOM + rnd.randrange(-3000, 3000), ROOM, ROOM + 8 * N, 1, 3 * ROOM - 1))
            if a != ROOM + 8 * (i - 1):
                return a
    used = {1: set(), 2: set()}

    def add(rec, line):
        s.append((rec, line))
    for _ in range(nops):
        k = rnd.randrange(20)
        i = rnd.randrange(1, N + 1)
        t = rnd.choice((1, 1, 2))
        if k < 5:
            root = rnd.choice((ROOM, ROOM, 1, 2 * ROOM, ROOM + 8 * (i - 1), 64))
            v = 0 if rnd.randrange(5) == 0 else place(i) - root
            if wide and v < 0:                    # offsets of 64 bits wrap
                v = v if rnd.randrange(2) else 0
            raw[i] = (v, root)
            add({"op": "poke", "i": i, "v": v}, "poke %d %d" % (i, v))
            if v == 0:
                raw[i] = 0
        elif k < 12:
            nc = int(rnd.randrange(6) == 0)
            if nc and raw[i] is None:
                nc = 0
            root = raw[i][1] if raw[i] else ROOM
            if raw[i] is None and i not in used[t]:   # would be made a pointer twice
                continue
            plain = rnd.randrange(2)
            add({"op": "fixup", "i": i, "t": t, "root": root, "nc": nc}, "fixup %d %d %d %d %d" % (i, t, root, nc, plain))
            if nc or i not in used[t]:
                used[t].add(i)
                if raw[i]:
                    raw[i] = None
        elif k < 14:
            add({"op": "fixed", "i": i, "t": t}, "fixed %d %d" % (i, t))
        elif k < 17:
            if raw[i] is None or raw[i] == 0:
                add({"op": "read", "i": i}, "read %d 1" % i)
        elif k < 19:
            at = rnd.choice((0, 1)) and place(i)
            add({"op": "assign", "i": i, "null": int(at == 0), "at": at}, "assign %d %d" % (i, at))
            raw[i] = 0 if at == 0 else None
        elif rnd.randrange(3) == 0:
            add({"op": "clear", "t": t}, "clear %d" % t)
            used[t].clear()
    return s


def run(ctx):
    ctx.model_check("Pointers_MC.tla", "Pointers_MC4.cfg" if ctx.thorough else "Pointers_MC.cfg",
                    what="two threads walking all graphs of up to four objects")
    exe = ctx.build("pointers", libs=["-pthread"])
    rnd = random.Random(ctx.seed)
    ses = [session(rnd, w, 12, 60) for w in (0, 1) for _ in range(400 if ctx.thorough else 60)]
    ses += [session(rnd, w, 400, 900) for w in (0, 1)]          # many slots
    ctx.conform(exe, "Pointers_Trace.tla", "Pointers_Trace.cfg", ses, "pointers", chunk=1500)
    ctx.sample({"session": [y for _, y in ses[0]][:12]})
