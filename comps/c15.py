"""C15: files of ZIP archives."""
import random
from vlib.core import hx

ASSUMPTIONS = ["archives are complete and well formed, or hold a block the library tells it does not take"]
SIZES = {"local": 30, "entry": 46, "signature": 6, "central": 22, "central64": 56, "locator64": 20, "extra": 8}


def le(v, n):
    return v.to_bytes(n, "little")


def rb(r, n):
    return bytes(r.choice([0, 1, 3, 4, 75, 80, r.randrange(256)]) for _ in range(n))


def local(name, content, extra=b"", flags=0, method=0, size=None, r=random):
    n = len(content) if size is None else size
    return (b"PK\3\4" + rb(r, 2) + le(flags, 2) + le(method, 2) + rb(r, 8) + le(n, 4) + le(n, 4) + le(len(name), 2)
            + le(len(extra), 2) + name + extra + content)


def other(r):
    k = r.randrange(7)
    a, b, c = rb(r, r.randrange(6)), rb(r, r.randrange(4)), rb(r, r.choice([0, 0, 3, 300]))
    if k == 0:
        return b"PK\1\2" + rb(r, 24) + le(len(a), 2) + le(len(b), 2) + le(len(c), 2) + rb(r, 12) + a + b + c
    if k == 1:
        return b"PK\5\6" + rb(r, 16) + le(len(c), 2) + c
    if k == 2:
        return b"PK\6\6" + le(44 + len(a), 8) + rb(r, 44) + a
    if k == 3:
        return b"PK\6\7" + rb(r, 16)
    if k == 4:
        return b"PK\5\5" + le(len(c), 2) + c
    if k == 5:
        return b"PK\6\x08" + le(len(c), 4) + c
    return b"PK\1\2" + rb(r, 24) + le(1, 2) + le(0, 2) + le(0, 2) + rb(r, 12) + b"a"


def run(ctx):
    ctx.model_check("ZipVfs_MC.tla", "ZipVfs_MC4.cfg" if ctx.thorough else "ZipVfs_MC.cfg", workers=8,
                    what="archives of few blocks, and two threads taking files")
    exe = ctx.build("zipvfs", [], flags=["-pthread"])
    r = random.Random(ctx.seed * 67 + 15)
    ses = []
    for i in range(700 if ctx.thorough else 120):
        s = [({"op": "fresh"}, "fresh")]
        hs = {}
        for _ in range(2):
            pieces, cur, known = [], b"", {}
            big = i % 6 == 0
            bad = r.random() < .15
            wide = i % 12 == 1          # with large fields
            for _ in range(r.randrange(1, 9)):
                if r.random() < .35:
                    cur += other(r)
                    if wide and r.random() < .3:
                        c = bytes(r.choice([32768, 40000, 65535]))
                        cur += r.choice([b"PK\1\2" + rb(r, 24) + le(0, 2) + le(0, 2) + le(len(c), 2) + rb(r, 12) + c,
                                         b"PK\1\2" + rb(r, 24) + le(1, 2) + le(len(c), 2) + le(0, 2) + rb(r, 12) + b"b" + c,
                                         b"PK\5\6" + rb(r, 16) + le(len(c), 2) + c, b"PK\5\5" + le(len(c), 2) + c,
                                         b"PK\6\6" + le(44 + len(c), 8) + rb(r, 44) + c])
                    continue
                name = r.choice([b"a", b"a/b.txt", b"dir/", b"b", b"Z\xc3\xa9", b"x" * 40, b"PK\3\4"])
                c = rb(r, r.choice([0, 1, 5, 30, 30, 90]))
                fl = r.choice([0, 0, 2, 4, 1 << 11, 1 << 3, 0xfffe])
                if big and r.random() < .4:
                    n = r.choice([70000, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 3 * 10**9])
                    cur += local(name, c, rb(r, r.choice([0, 4])), fl, 0, n, r)
                    known.setdefault(name, (c, n))
                    pieces.append((cur, n - len(c)))
                    cur = b""
                elif bad and r.random() < .3:
                    q = r.randrange(4)
                    if q < 3:
                        cur += local(name if q else b"", c, b"", 1 if q == 1 else 0, r.choice([8, 1, 99, 256]) if q == 2 else 0, r=r)
                    else:
                        cur += r.choice([b"PK\7\x08" + rb(r, 12), b"PK\3\3", b"PJ\3\4" + rb(r, 30), b"\0\0\0\0"])
                else:
                    ex = rb(r, r.choice([0, 0, 4, 20]))
                    if wide and r.random() < .5:
                        ex = r.choice([ex, bytes(r.choice([256, 32768, 40000, 65535]))])
                        name = r.choice([name, b"n" * r.choice([255, 256, 300]), b"m" * 33000])
                        c = r.choice([c, rb(r, 300), rb(r, 9000)])
                    cur += local(name, c, ex, fl, r.choice([0, 0, 8]) if not c else 0, r=r)
                    if c:
                        known.setdefault(name, (c, len(c)))
            if cur or not pieces:
                pieces.append((cur, 0))
            before = rb(r, r.choice([0, 0, 7, 300]))
            s.append(({"op": "open", "ps": [[list(b), list(le(g, 4))] for b, g in pieces]},
                      "open %d %s %s" % (r.randrange(2), hx(before), " ".join("%s %d" % (hx(b), g) for b, g in pieces))))
            if not taken(pieces):
                break
            small = [n for n in known if len(known[n][0]) == known[n][1]]
            for _ in range(14):
                q = r.random()
                live = list(hs)
                if q < .1:
                    n = r.choice(list(known) + [b"none", b"", b"dir", b"dir/"])
                    s.append(({"op": "has", "n": list(n)}, "has " + hx(n)))
                elif q < .4 and (small or q < .15):
                    n = r.choice(small) if small and q > .13 else b"none"
                    if n == b"none" and n in known:
                        continue
                    h = r.randrange(4)
                    s.append(({"op": "take", "h": h, "n": list(n)}, "take %d %d %s" % (h, r.randrange(3), hx(n))))
                    if n in known:
                        hs[h] = [len(known[n][0]), 0]
                elif q < .7 and live:
                    h = r.choice(live)
                    n = r.randrange(hs[h][0] - hs[h][1] + 1)
                    s.append(({"op": "read", "h": h, "n": n}, "read %d %d %d" % (h, n, r.randrange(3))))
                    hs[h][1] += n
                elif q < .77 and live:
                    h = r.choice(live)
                    hs[h][1] = r.randrange(hs[h][0] + 1)
                    s.append(({"op": "seek", "h": h, "n": hs[h][1]}, "seek %d %d" % (h, hs[h][1])))
                elif q < .82 and live:
                    h = r.choice(live)
                    s.append(({"op": "tell", "h": h}, "tell %d" % h))
                elif q < .92 and live:
                    h, to = r.choice(live), r.randrange(5)
                    if h != to:
                        s.append(({"op": "move", "h": h, "to": to}, "move %d %d %d" % (h, to, r.randrange(2))))
                        hs[to] = hs.pop(h)
                elif small:
                    ns = [[r.choice(small) for _ in range(r.randrange(1, 5))] for _ in range(r.randrange(2, 6))]
                    s.append(({"op": "all", "ns": [[list(n) for n in t] for t in ns]},
                              "all " + " ".join("%d %s" % (len(t), " ".join(hx(n) for n in t)) for t in ns)))
        for _ in range(2):
            k = r.choice(list(SIZES))
            b = rb(r, SIZES[k])
            s.append(({"op": "block", "k": k, "b": list(b)}, "block %s %s" % (k, hx(b))))
        ses.append(s)
    ctx.conform(exe, "ZipVfs_Trace.tla", "ZipVfs_Trace.cfg", ses, "zip", chunk=250, par=8, timeout=300)
    ctx.sample({"session": [x[:200] for _, x in ses[-1]][:12]})


def taken(pieces):
    """whether the archive is going to be taken, only to know whether to go on with it"""
    for b, gap in pieces:
        p = 0
        while p < len(b):
            k = b[p:p + 4]
            u = lambda o, n: int.from_bytes(b[p + o:p + o + n], "little")
            if k == b"PK\3\4":
                if u(18, 4) and (u(6, 2) & 1 or u(8, 2) or not u(26, 2)):
                    return False
                p += 30 + u(26, 2) + u(28, 2) + u(18, 4)
            elif k == b"PK\1\2":
                p += 46 + u(28, 2) + u(30, 2) + u(32, 2)
            elif k == b"PK\5\6":
                p += 22 + u(20, 2)
            elif k == b"PK\6\6":
                p += 12 + u(4, 8)
            elif k == b"PK\6\7":
                p += 20
            elif k == b"PK\5\5":
                p += 6 + u(4, 2)
            elif k == b"PK\6\x08":
                p += 8 + u(4, 4)
            else:
                return False
    return True
