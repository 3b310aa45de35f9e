"""C33: XML files and errors."""
import random, os, tempfile, shutil, pwd

ASSUMPTIONS = ["pugixml 1.14 is part of the system"]
PF = ["PI", "Comments", "CDATA", "WhiteSpacePCDATA", "Escapes", "EOL", "WConvAttribute", "WNormAttribute", "Declaration", "DocType",
      "WhiteSpavePCDATASingle", "TrimPCDATA", "Fragment", "EmbedPCDATA"]
FF = ["Indent", "WriteBOM", "Raw", "NoDeclaration", "NoEscapes", "SaveFileText", "IndentAttributes", "NoEmptyElementTaggs", "SkipControlChars"]
DEF = ["CDATA", "Escapes", "WConvAttribute", "EOL"]
ENC = {"Auto": None, "UTF8": "utf-8", "UTF16_LE": "utf-16-le", "UTF16_BE": "utf-16-be", "UFT16": "utf-16-le", "UTF32_LE": "utf-32-le",
       "UTF32_be": "utf-32-be", "UTF32": "utf-32-le", "Wchar": "utf-32-le", "Latin1": "latin-1"}
hx = lambda b: "x" + bytes(b).hex()


class Gen:
    def __init__(self, rnd, wide):
        self.r = rnd
        self.wide = wide

    def name(self):
        return self.r.choice(["a", "b", "ab", "node", "x-y", "n1", "q:w"])

    def chars(self, avoid):
        r = self.r
        pool = "abcXYZ 019.,;:=/()[]{}!?'\"-_" + ("é" if self.wide >= 1 else "") + ("ěжあ" if self.wide >= 2 else "") + ("𐍈" if self.wide >= 3 else "")
        return "".join(c for c in (r.choice(pool) for _ in range(r.randrange(1, 7))) if c not in avoid)

    def text(self):
        r = self.r
        out = ""
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < .35:
                out += r.choice(["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x42;", "&#xe9;" if self.wide else "&#x41;"])
            elif k < .5:
                out += r.choice(["\n", "\r\n", "\r", "\t", "  ", "\n\t"])
            else:
                out += self.chars("<&>")
        return out

    def ws(self):
        return self.r.choice(["\n", " ", "\n\t", "\r\n  ", "\t"])

    def attrs(self):
        out = ""
        for n in self.r.sample(["k", "id", "v", "x:y"], self.r.randrange(4)):
            q = self.r.choice("\"\"'")
            t = self.text() if self.r.random() < .8 else ""
            out += self.r.choice([" ", " ", "\n", "  "]) + n + self.r.choice(["=", "=", " = "]) + q + t.replace(q, "") + q
        return out

    def misc(self, top):
        r = self.r
        k = r.randrange(4 if not top else 2)
        if k == 0:
            return "<!--" + self.chars("-<&>") + r.choice(["", "\r\n", " & "]) + "-->"
        if k == 1:
            return "<?" + r.choice(["pi", "target"]) + r.choice(["", " " + self.chars("?<>&") + "z"]) + "?>"
        if k == 2:
            return "<![CDATA[" + self.chars("]") + r.choice(["", "<&>", "\r\n", "]"]) + "z]]>"
        return self.text()

    def el(self, d):
        r = self.r
        n = self.name()
        s = "<" + n + self.attrs()
        k = r.random()
        if k < .25:
            return s + r.choice(["/>", " />"])
        s += r.choice(["", "", " "]) + ">"
        if k < .35:
            s += r.choice(["", self.ws()])
        elif k < .55:
            s += self.text()
        else:
            for _ in range(r.randrange(1, 4)):
                q = r.random()
                if q < .3:
                    s += self.ws()
                if q < .75 and d < 3:
                    s += self.el(d + 1)
                else:
                    s += self.misc(False)
            if r.random() < .3:
                s += self.ws()
        return s + "</" + n + r.choice(["", "", " "]) + ">"

    def doc(self, latin):
        r = self.r
        s = ""
        if latin or r.random() < .4:
            s += '<?xml version="1.0"' + (' encoding="ISO-8859-1"' if latin else "") + "?>"
        if r.random() < .3:
            s += r.choice(["", "\n"]) + "<!DOCTYPE " + r.choice(["a", 'a SYSTEM "b.dtd"']) + ">"
        for _ in range(r.randrange(3)):
            s += r.choice(["", "\n"]) + (self.misc(True) if s or r.random() < .9 else "")
        for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
            s += r.choice(["", "\n", " tx "] if s else [""]) + self.el(0)
        return s + r.choice(["", "\n", " end<z/>"] if s else ["", "<!-- -->"])


def pflags(rnd):
    k = rnd.random()
    if k < .2:
        return list(DEF)
    f = [x for x in PF if rnd.random() < rnd.choice((.2, .5, .8))]
    if k < .5 and "Escapes" not in f:
        f.append("Escapes")
    if "TrimPCDATA" in f and set(f) & {"WhiteSpacePCDATA", "WhiteSpavePCDATASingle"}:
        f.remove("TrimPCDATA")
    return f


def run(ctx):
    ctx.model_check("XmlFile_MC.tla", "XmlFile_MC4.cfg" if ctx.thorough else "XmlFile_MC.cfg", workers=8,
                    what="small documents written and read in all ways")
    exe = ctx.build("xmlfile", ["datas/reflector.cpp", "datas/master_printer.cpp"], libs=["-lpugixml"])
    rnd = random.Random(ctx.seed * 3 + 33)
    ses = []
    names = ["f0.xml", "f1.xml", "f2"]
    for i in range(1200 if ctx.thorough else 200):
        s = [({"op": "fresh"}, "fresh " + " ".join(names + ["bad.xml"]))]
        encs = {}
        g = Gen(rnd, rnd.choice((0, 1, 2, 3)))
        have = set()

        def put(n):
            e = rnd.choice([x for x in ENC if x != "Auto"])
            latin = e == "Latin1"
            g.wide = 1 if latin else rnd.randrange(4)
            t = g.doc(latin)
            b = t.encode(ENC[e])
            bom = rnd.random() < .3 and not latin
            if bom:
                b = "\ufeff".encode(ENC[e]) + b
            # not told, an encoding shows by the mark or by how the file begins
            clear = bom or latin or (t[:1] == "<" if "16" not in e and e != "UFT16" else t[:2] == "<?") or e == "UTF8"
            encs[n] = [e] + (["Auto"] * 2 if clear and t else [])
            have.add(n)
            s.append(({"op": "put", "name": n, "bytes": list(b)}, "put %s %s" % (n, hx(b))))

        def load(n):
            f = pflags(rnd)
            e = rnd.choice(encs.get(n, ["Auto"]))
            if encs.get(n, ["Auto"])[0] == "Latin1" and "Fragment" in f:
                f.remove("Fragment")  # pugixml loses the last character of texts at the end of such files
            if rnd.random() < .15 and "Auto" in encs.get(n, ["Auto"]):
                s.append(({"op": "load", "name": n, "enc": "Auto", "flags": DEF}, "loaddef " + n))
            else:
                s.append(({"op": "load", "name": n, "enc": e, "flags": f}, "load %s %s %s" % (n, e, ",".join(f) or "-")))

        def save(n):
            k = rnd.random()
            if k < .1:
                s.append(({"op": "save", "name": n, "enc": "Auto", "flags": ["Indent"], "ind": [9]}, "save %s - - x" % n))
                encs[n] = ["UTF8", "Auto"]
                have.add(n)
                return
            e = rnd.choice(list(ENC))
            f = [x for x in FF if rnd.random() < rnd.choice((.15, .5))]
            if rnd.random() < .7 and "NoEscapes" in f:
                f.remove("NoEscapes")
            ind = rnd.choice(["\t", "  ", ""])
            if rnd.random() < .05:
                s.append(({"op": "save", "name": "none/x", "enc": e, "flags": f, "ind": [ord(c) for c in ind]}, "save none/x %s %s %s" % (e, ",".join(f) or "-", hx(ind.encode()))))
                return
            s.append(({"op": "save", "name": n, "enc": e, "flags": f, "ind": [ord(c) for c in ind]}, "save %s %s %s %s" % (n, e, ",".join(f) or "-", hx(ind.encode()))))
            if "NoEscapes" in f:  # may be no XML any more
                have.discard(n)
                encs.pop(n, None)
            else:
                encs[n] = [e]
                have.add(n)
        # the children of the document only, so that the path exists: deeper ones are asked for in the tree read last
        for k in range(12):
            q = rnd.random()
            if q < .25 or not have:
                put(rnd.choice(names))
            elif q < .6:
                load(rnd.choice(sorted(have)))
            elif q < .63:
                s.append(({"op": "load", "name": "missing", "enc": "Auto", "flags": DEF}, "load missing Auto " + ",".join(DEF)))
            elif q < .85:
                save(rnd.choice(names))
            else:
                nm = rnd.choice(["", "a", "b", "ab", "node", "pi"])
                s.append(({"op": "collect", "path": [], "nm": [ord(c) for c in nm]}, "collect %s 0" % hx(nm.encode())))
        ses.append(s)
    for i in range(400 if ctx.thorough else 80):
        # one file, all of its nodes
        s = [({"op": "fresh"}, "fresh " + " ".join(names + ["bad.xml"]))]
        g = Gen(rnd, 0)
        t = "<r>" + "".join(g.el(rnd.randrange(4)) for _ in range(rnd.randrange(1, 8))) + "</r>"
        s.append(({"op": "put", "name": "f0.xml", "bytes": list(t.encode())}, "put f0.xml " + hx(t.encode())))
        s.append(({"op": "load", "name": "f0.xml", "enc": "UTF8", "flags": DEF}, "load f0.xml UTF8 " + ",".join(DEF)))
        for nm in ["", "a", "b", "ab", "node", "n", "A"]:
            s.append(({"op": "collect", "path": [1], "nm": [ord(c) for c in nm]}, "collect %s 1 1" % hx(nm.encode())))
            s.append(({"op": "nodeerr"}, "nodeerr %s %s 1 1" % (rnd.choice(["child", "attr", "data"]), hx(nm.encode()))))
        s.append(({"op": "nodeerr"}, "nodeerr %s %s 2 1 1" % (rnd.choice(["child", "attr", "data"]), hx(b"some"))))
        for k in range(6):
            kind = rnd.choice(["notfound", "access", "header", "headername", "magic", "magic", "magic", "version", "eos"])
            named = rnd.randrange(2)
            nm = "".join(rnd.choice("abc./xyz 09") for _ in range(rnd.randrange(1, 12)))
            b = []
            if kind == "version":
                nm = str(rnd.choice((0, 1, 255, (1 << 64) - 1, rnd.randrange(1 << 40))))
            if kind == "magic":
                n = rnd.choice((2, 4, 4, 4, 8, 3, 5))
                b = [rnd.choice(b"ABCxyz019") for _ in range(n)]
                if rnd.random() < .5:
                    b[rnd.randrange(n)] = rnd.choice((0, 1, 15, 16, 32, 47, 58, 64, 91, 127, 128, 200, 255))
                if rnd.random() < .2:
                    b = [rnd.randrange(256) for _ in range(n)]
                c = b[:b.index(0)] if 0 in b else b
                nm = bytes(c).decode("latin-1") if bytes(c).isalnum() else ""
            s.append(({"op": "err", "kind": kind, "named": named, "name": nm, "bytes": b}, "err %s %d %s %s" % (kind, named, hx(nm.encode()), hx(b))))
        # damaged ones
        for k in range(6):
            t = Gen(rnd, 0).doc(False)
            if not t:
                continue
            t = list(t)
            for _ in range(rnd.choice((1, 1, 2, 3))):
                p = rnd.randrange(len(t) + 1)
                q = rnd.random()
                if q < .4 and p < len(t):
                    del t[p]
                elif q < .7:
                    t.insert(p, rnd.choice("<>/!?&'\"a=-[]"))
                else:
                    t = t[:p]
            b = "".join(t).encode()
            f = pflags(rnd)
            s.append(({"op": "put", "name": "bad.xml", "bytes": list(b)}, "put bad.xml " + hx(b)))
            s.append(({"op": "bad", "name": "bad.xml"}, "bad bad.xml UTF8 %s" % (",".join(f) or "-")))
        ses.append(s)
    uid = pwd.getpwnam("nobody")
    made = []

    def cwd():
        d = tempfile.mkdtemp(prefix="vx33")
        os.chown(d, uid.pw_uid, uid.pw_gid)
        made.append(d)
        return d
    try:
        ctx.conform(exe, "XmlFile_Trace.tla", "XmlFile_Trace.cfg", ses, "xml files", chunk=150, unpriv=True, cwd_factory=cwd)
    finally:
        for d in made:
            shutil.rmtree(d, ignore_errors=True)
    ctx.sample({"session": [y[:300] for _, y in ses[3]][:8]})
