"""C16: scanning, typing and making of folders."""
import os
import pwd
import random
import shutil
import tempfile
from vlib.core import hx

ASSUMPTIONS = ["the file system tells the kind of folder entries; no symbolic links",
               "scanned as an unprivileged user in a scratch folder"]


def run(ctx):
    ctx.model_check("FileTree_MC.tla", "FileTree_MC8.cfg" if ctx.thorough else "FileTree_MC.cfg", workers=8,
                    what="small trees built in every way, scanned from everywhere")
    exe = ctx.build("filetree", ["datas/directory_scanner.cpp", "datas/stat.cpp"])
    rnd = random.Random(ctx.seed * 61 + 16)
    plain = [b"a", b"ab", b"b.x", b".x", b"a.b.x", b"...", b"x y", "é".encode(), b"ab.txt", b"lon" + b"g" * 60, b"X"]
    odd = plain + [b'a"', b'q"q', b'b\\', b'"', b'\\', b'c\\d']
    ses = []
    for i in range(900 if ctx.thorough else 150):
        names = odd if rnd.random() < .4 else plain
        tree = {(): "dir"}
        s = [({"op": "fresh"}, "fresh")]
        text = lambda p: b"/".join(p)
        enc = lambda p: [list(x) for x in p]

        def put():
            p = rnd.choice([q for q in tree if tree[q] == "dir" and len(q) < 4]) + (rnd.choice(names),)
            if p in tree or len(text(p)) > 90:
                return
            k = rnd.choice(["dir", "dir", "dir", "file", "file", "file", "file", "other", "closed"])
            tree[p] = k
            s.append(({"op": "put", "p": enc(p), "k": k}, "put %s %s %d" % (k, hx(text(p)), rnd.randrange(2))))

        def made(base, p):
            t = base
            if t not in tree or tree[t] != "dir":
                return
            for x in p[:-1]:
                t = t + (x,)
                if t in tree:
                    if tree[t] != "dir":
                        return
                else:
                    tree[t] = "dir"
        for _ in range(rnd.randrange(10)):
            put()
        if i % 10 == 3:         # deep or long ways
            q = ()
            for d in rnd.choice([[b"n" * 180] * 5, [b"m" * 250] * 3, [b"d"] * 30]):
                q += (d,)
                for p, k in ((q + (b"in.txt",), "file"), (q, "dir")):
                    if q not in tree:
                        tree[q] = "dir"
                        s.append(({"op": "put", "p": enc(q), "k": "dir"}, "put dir %s 0" % hx(text(q))))
                    if k == "file" and rnd.random() < .6 and p not in tree:
                        tree[p] = k
                        s.append(({"op": "put", "p": enc(p), "k": k}, "put file %s 0" % hx(text(p))))
            s.append(({"op": "scan", "p": [], "start": []}, "scan x"))
            for p in (q, q + (b"in.txt",)):
                s.append(({"op": "type", "p": enc(p)}, "type " + hx(text(p))))
            p = (b"made", b"w" * 200, b"w" * 200, b"v" * 100) + (b"u",) * 12 + (b"f",)
            made((), p)
            s.append(({"op": "mkdirs", "p": enc(p)}, "mkdirs " + hx(text(p))))
        for _ in range(14):
            q = rnd.random()
            if q < .2:
                put()
            elif q < .45:
                p = rnd.choice(list(tree) + [(b"none",)])
                if p and tree.get(p) == "dir" and rnd.random() < .2:
                    p += (rnd.choice(names),)
                t = text(p)
                if p and rnd.random() < .3:
                    t = t.replace(b"/", b"//", 1)
                if p and rnd.random() < .3:
                    t = rnd.choice([b"./", b"~/"]) + t
                tail = b""
                if p:
                    # a plain name, one with separators, one quoted
                    tail = rnd.choice([b"", b"/", b"//"] + ([b'"'] if t[-1:] not in b'"\\' else []))
                    if t[-1:] in b'"\\':
                        tail = b"/"
                start = t + (tail if tail not in (b"", b'"') else b"/") if p else b""
                s.append(({"op": "scan", "p": enc(p), "start": list(start)}, "scan " + hx(t + tail)))
            elif q < .55:
                f = rnd.choice([b"a", b".x", b"x", b"b.", b"", b"/", b"txt", b"nope", b".", b"ab"])
                s.append(({"op": "filter", "f": list(f)}, "filter " + hx(f)))
            elif q < .6:
                w = rnd.choice(["nofilters", "clear"])
                s.append(({"op": w}, w))
            elif q < .78:
                p = rnd.choice([x for x in tree if x] or [(b"q",)])
                if rnd.random() < .25:
                    p += (rnd.choice(names),)
                t = text(p)
                # below a file there is nothing
                s.append(({"op": "type", "p": enc(p)}, "type " + hx((b"~/" if rnd.random() < .3 else b"") + t)))
            elif q < .86:
                p = rnd.choice(list(tree)) + ((rnd.choice(names),) if rnd.random() < .8 else ())
                if rnd.random() < .15:
                    p += (rnd.choice(names),)
                if not p or len(text(p)) > 90:
                    continue
                k = "closed" if rnd.random() < .2 else "dir"
                if p not in tree and tree.get(p[:-1]) == "dir":
                    tree[p] = k
                s.append(({"op": "mkdir", "p": enc(p), "k": k}, "mkdir %s %s %s" % (
                    rnd.choice(["text", "chars"]), k, hx((b"~/" if rnd.random() < .3 else b"") + text(p)))))
            else:
                many = rnd.random() < .5
                ps, ts = [], []
                for _ in range(rnd.randrange(1, 5) if many else 1):
                    p = tuple(rnd.choice(plain) for _ in range(rnd.randrange(1, 5)))
                    if rnd.random() < .3:
                        p = p[:-1] + (b"",)
                    t = b"".join(x + rnd.choice([b"/", b"/", b"\\"]) for x in p[:-1]) + p[-1]
                    if p == (b"",):
                        continue
                    ps.append(p)
                    ts.append(t)
                if not ps:
                    continue
                if many:
                    base = rnd.choice([b for b in list(tree) + [(b"none",)] if not b or b[-1][-1:] not in b'"'])
                    for p in ps:
                        made(base, p)
                    s.append(({"op": "mkdirsin", "p": enc(base), "ps": [enc(p) for p in ps]},
                              "mkdirsin %s %s" % (hx((b"~/" if base and rnd.random() < .3 else b"") + text(base) + (b"/" if base else b"")), " ".join(hx(t) for t in ts))))
                else:
                    made((), ps[0])
                    s.append(({"op": "mkdirs", "p": enc(ps[0])}, "mkdirs " + hx((b"~/" if rnd.random() < .3 else b"") + ts[0])))
        ses.append(s)
    top = tempfile.mkdtemp(prefix="verif_tree_")
    os.chmod(top, 0o755)

    def scratch():
        d = tempfile.mkdtemp(dir=top)
        if os.getuid() == 0:
            pw = pwd.getpwnam("nobody")
            os.chown(d, pw.pw_uid, pw.pw_gid)
        return d
    try:
        ctx.conform(exe, "FileTree_Trace.tla", "FileTree_Trace.cfg", ses, "tree", chunk=350, par=8, unpriv=True,
                    cwd_factory=scratch)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    ctx.sample({"session": [x for _, x in ses[-1]][:12]})
