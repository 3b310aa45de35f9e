"""C31: transformations."""
import itertools
import random

U = 64


def run(ctx):
    ctx.model_check("Xform_MC.tla", "Xform_MC.cfg", what="all turns, scales and positions, and what follows and undoes them")
    if ctx.thorough:
        ctx.model_check("Xform_MC.tla", "Xform_MC_more.cfg", what="turns onto axes, three after one another")
    exe = ctx.build("xform", repo_sources=["datas/matrix44.cpp"])
    rnd = random.Random(ctx.seed)

    def w(*vs):
        return " ".join(str(x) for v in vs for x in (v if isinstance(v, (list, tuple)) else [v]))

    def rows(k=12, last=None):
        m = [rnd.choice((0, 1, -1, rnd.randrange(-k, k + 1))) * U for _ in range(16)]
        if last is not None:
            for i in (3, 7, 11):
                m[i] = 0
        return m

    def frompaxis():
        """rotation onto axes, scales of powers of two, position"""
        perm = rnd.sample(range(3), 3)
        sg = [rnd.choice((1, -1)) for _ in range(3)]
        m = [0] * 16
        for i in range(3):
            m[i * 4 + perm[i]] = sg[i] * rnd.choice((U // 4, U // 2, U, 2 * U, 4 * U))
        for j in range(3):
            m[12 + j] = rnd.choice((0, 1, -3, rnd.randrange(-20, 21))) * 4 * U
        m[15] = U
        return m

    def q(k=4):
        while True:
            v = [rnd.choice((0, 0, 1, -1, rnd.randrange(-k, k + 1))) for _ in range(4)]
            if any(v):
                return v

    def halves():
        if rnd.random() < .5:
            return [rnd.randrange(-3, 4) * 2 for _ in range(4)]
        return rnd.choice(([rnd.choice((1, -1)) for _ in range(4)], [rnd.randrange(-4, 5) for _ in range(4)]))

    ses = []

    def add(ops):
        for i in range(0, len(ops), 150):
            ses.append([({"op": "reset"}, "reset")] + ops[i:i + 150])

    n = 12 if ctx.thorough else 1
    ops = []
    for _ in range(80 * n):
        how = rnd.choice(("ab", "aa", "b=ab", "a=ab", "a*=b", "a*=a"))
        a, b = rows(), rows()
        ops.append(({"op": "mul", "how": how, "a": a, "b": b}, w("mul", how, a, b)))
        a = rows(100, rnd.choice((None, 0)))
        ops.append(({"op": "un", "a": a}, w("un", a)))
        a, p = rows(10, 0), [rnd.randrange(-100, 101) * 16 for _ in range(3)] + [U]
        ops.append(({"op": "point", "a": a, "p": p}, w("point", a, p)))
        h, s, a = halves(), [rnd.choice((1, -1)) * rnd.choice((U // 2, U, 2 * U, 3 * U)) for _ in range(3)] + [0], rows()
        ops.append(({"op": "quat", "q": h, "s": s, "a": a}, w("quat", h, s, a)))
        a = frompaxis()
        ops.append(({"op": "inv", "a": a}, w("inv", a)))
        for what in ("dec", "invq"):
            v, p = q(), [rnd.randrange(-30, 31) for _ in range(3)] + [1]
            s = [rnd.choice((1, -1, 1)) * rnd.choice((4, 2, 8, rnd.randrange(2, 17))) for _ in range(3)] + [4]
            if rnd.random() < .5:
                s = [abs(x) for x in s]
            if what == "invq":
                s = [x if abs(x) < 12 else 7 for x in s]
                p = [x // 3 for x in p[:3]] + [1]
                if rnd.random() < .3:
                    s[rnd.randrange(3)] = 0
            ops.append(({"op": what, "q": v, "s": s, "p": p}, w(what, v, s, p)))
    add(ops)
    ops = []
    for _ in range(60 * n):
        perm, sg, e = rnd.sample(range(3), 3), [rnd.choice((1, -1)) for _ in range(3)], [rnd.randrange(-9, 12) for _ in range(3)]
        ops.append(({"op": "wide", "perm": perm, "sg": sg, "e": e}, w("wide", perm, sg, e)))
    add(ops)
    k = 3 if ctx.thorough else 2
    add([({"op": "turn", "q": list(v)}, w("turn", v)) for v in itertools.product(range(-k, k + 1), repeat=4) if any(v)])
    add([({"op": "turn", "q": v}, w("turn", v)) for v in (q(30) for _ in range(100 * n))])
    res = ctx.conform(exe, "Xform_Trace.tla", "Xform_Trace.cfg", ses, "transformations", chunk=500)
    ctx.sample({"session": [y for _, y in ses[0]][:6]})
    # a quarter turn about Z and a position: what the inverse takes the position to
    tr, died = ctx.exec_ops(exe, [({"op": "inv"}, "inv 0 -64 0 0 64 0 0 0 0 0 64 0 64 128 0 64")])
    if not died and tr[0]["out"][12:15] != [128, -64, 0]:
        ctx.known.append("the inverse (unary minus) of a matrix that turns and moves does not take it back: rows (0 -1 0) (1 0 0) (0 0 1) (1 2 0) gives the position %s and not 2 -1 0"
                         % " ".join(str(x / 64) for x in tr[0]["out"][12:15]))
