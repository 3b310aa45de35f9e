"""Random reflected classes: C++ declarations for the drivers and schemas for the specification."""


def codes(s):
    return list(s.encode())


INTS = [("int8", "int", 1), ("int16", "int", 2), ("int32", "int", 4), ("int64", "int", 8),
        ("uint8", "uint", 1), ("uint16", "uint", 2), ("uint32", "uint", 4), ("uint64", "uint", 8)]
FLTS = [("float", "flt", 4), ("double", "flt", 8)]


class Gen:
    def __init__(self, rnd, prefix="K"):
        self.r = rnd
        self.p = prefix
        self.cpp = []
        self.enums = []          # (cname, items [(name, value)], size)
        self.fenums = []         # enums of flag numbers
        self.classes = []        # dict
        self.reg = []
        self.layouts = set()
        self.basefmt = "ReflectorBase<%s>"
        self.big = 0.            # how often arrays have more than a hundred items
        self.bigs = [101, 112]
        self.long = 0.           # how often names and texts are long

    def tail(self):
        """something to make a name or text long"""
        if self.long and self.r.random() < self.long:
            return "x" * self.r.choice([30, 240, 251, 256, 300, 700])
        return ""

    # ------------------------------------------------------------- enums
    def enum(self, flags=False, maxbit=8):
        r = self.r
        i = len(self.reg)
        name = "%sE%d" % (self.p, i) + self.tail()
        cls = r.random() < 0.5
        size = r.choice([0, 8, 16, 32, 64])
        n = r.randrange(1, 9)
        items = []
        decl = []
        last = 0
        used = set()
        for k in range(n):
            nm = "%s%d_%s%d" % (self.p.lower(), i, r.choice(["A", "Bcd", "x_y", "Z9", "none"]), k) + self.tail()
            if flags:
                free = [b for b in range(maxbit) if b not in used]
                if not free:
                    break
                v = r.choice(free)
                used.add(v)
                explicit = True
            else:
                explicit = r.random() < 0.5
                bits = size or 31
                if explicit:
                    t = r.random()
                    if size == 0 and t < 0.3:
                        v = -r.randrange(1, r.choice([3, 100, 1 << 31]))
                    elif t < 0.6:
                        v = r.randrange(0, min(1 << bits, 300) - 20)
                    else:
                        v = r.randrange(0, (1 << bits) - 20)
                else:
                    v = last
            if not explicit:
                decl.append(nm)
            else:
                sp = r.choice(["", " "])
                lit = ("0x%x" % v if v >= 0 and r.random() < 0.4 else str(v))
                if v >= (1 << 63):
                    lit += "u"
                decl.append("%s%s=%s%s" % (nm, sp, sp, lit))
            last = v + 1
            items.append((nm, v))
        args = (["CLASS"] if cls else []) + ([str(size)] if size else [])
        self.cpp.append("REFLECTOR_CREATE(%s, ENUM, %d, %s%s)" % (
            name, len(args), "".join(a + ", " for a in args), ", ".join(decl)))
        e = {"c": name, "items": items, "n": (size or 32) // 8, "cls": cls}
        self.reg.append(name)
        (self.fenums if flags else self.enums).append(e)
        return e

    def enum_type(self, e):
        return {"k": "enum", "n": e["n"],
                "items": [{"nm": codes(a), "v": list((v & (2**64 - 1)).to_bytes(8, "little"))}
                          for a, v in e["items"]]}

    # ------------------------------------------------------------ types
    def scalar(self, kinds):
        r = self.r
        k = r.choice(kinds)
        if k == "int":
            c, kk, n = r.choice(INTS)
            return c, {"k": kk, "n": n}
        if k == "flt":
            c, kk, n = r.choice(FLTS)
            return c, {"k": kk, "n": n}
        if k == "bool":
            return "bool", {"k": "bool", "n": 1}
        if k == "enum":
            e = r.choice(self.enums)
            return e["c"], self.enum_type(e)
        if k == "flags":
            e = r.choice(self.fenums)
            need = max(v for _, v in e["items"]) + 1
            n = r.choice([x for x in (1, 2, 4, 8) if x * 8 >= need])
            t = self.enum_type(e)
            t.update({"k": "flags", "n": n})
            return "es::Flags<%s, uint%d>" % (e["c"], n * 8), t
        if k == "str":
            return "std::string", {"k": "str", "n": 0}
        if k in ("class", "mid"):       # mid: a class with members of class types, never in arrays
            c = r.choice([c for c in self.classes if c["leaf" if k == "class" else "mid"]])
            return c["c"], {"k": "class", "n": 0, "c": c["sch"]}
        if k == "bf":                   # a class of bits
            c = r.choice([c for c in self.classes if c["leaf"] and c["bf"]])
            return c["c"], {"k": "class", "n": 0, "c": c["sch"]}
        raise KeyError(k)

    def vector(self):
        r = self.r
        if r.random() < 0.5:
            c, t = r.choice(FLTS)[0], None
        else:
            c = r.choice(INTS)[0]
        kk, n = [(k, n) for cc, k, n in INTS + FLTS if cc == c][0]
        cnt = r.choice([2, 3, 4])
        el = {"k": kk, "n": n}
        if cnt == 4 and c in ("float", "int32") and r.random() < 0.5:
            cpp = {"float": "Vector4A16", "int32": "IVector4A16"}[c]
        else:
            cpp = {2: "t_Vector2<%s>", 3: "t_Vector<%s>", 4: "t_Vector4<%s>"}[cnt] % c
        return cpp, {"k": "vec", "n": 0, "cnt": cnt, "el": el}

    def array_of(self, ik):
        r = self.r
        c, t = self.vector() if ik == "vec" else self.scalar([ik])
        cnt = r.randrange(2, 5)
        if ik in ("int", "bool", "enum", "flags") and self.big and r.random() < self.big:
            cnt = r.choice(self.bigs)
        t = {"k": "arr", "n": 0, "cnt": cnt, "el": t}
        if r.random() < 0.5:
            return c, "std::array<%%s, %d> {n}" % cnt, t
        return c, "%%s {n}[%d]" % cnt, t

    def field_type(self, allow=("int", "int", "flt", "bool", "enum", "flags", "str", "vec", "arr",
                                "arr", "class")):
        r = self.r
        allow = [a for a in allow if a != "class" or any(c["leaf"] for c in self.classes)]
        k = r.choice(allow)
        if k == "vec":
            c, t = self.vector()
            return c, "%s {n}", t
        if k == "arr":
            inner = [a for a in allow if a != "arr"]
            ik = r.choice(inner)
            if ik == "vec":
                c, t = self.vector()
            else:
                c, t = self.scalar([ik])
            cnt = r.randrange(1, 6)
            if self.big and ik in ("int", "bool", "enum", "flags") and r.random() < self.big:
                cnt = r.choice(self.bigs)
            t = {"k": "arr", "n": 0, "cnt": cnt, "el": t}
            if r.random() < 0.4:
                return c, "std::array<%%s, %d> {n}" % cnt, t
            return c, "%%s {n}[%d]" % cnt, t
        c, t = self.scalar([k])
        return c, "%s {n}", t

    # ---------------------------------------------------------- classes
    def klass(self, nfields, leaf=False, base=None, mode=None, allow=None, inv=None, mid=False):
        r = self.r
        i = len(self.classes)
        name = "%sC%d" % (self.p, i) + self.tail()
        mode = mode or r.choice(["0", "VARNAMES", "EXTENDED", "EXTENDED"])
        if (leaf or mid) and mode == "0":
            mode = "VARNAMES"          # members of other classes need a hash
        base = (r.random() < 0.3 and not leaf and not mid) if base is None else base
        fields = []
        names = []
        members = []
        for f in range(nfields if inv is None else len(inv)):
            kw = {"allow": allow} if allow else {}
            if leaf:
                kw = {"allow": [a for a in (allow or ("int", "int", "flt", "bool", "enum", "flags", "str"))
                                if a not in ("class", "vec", "arr")]}
            if inv:
                kind = inv[f]
                c, fmt, t = (self.array_of(kind[4:]) if kind.startswith("arr:") else
                             self.field_type(allow=[kind]))
            else:
                c, fmt, t = self.field_type(**kw)
            nm = "%s%d" % (r.choice(["v", "item", "Size", "a_b", "h", "hA", "hot", "i", "x", "w"]), f) + self.tail()
            members.append((fmt % c).replace("{n}", nm))
            fields.append({"nm": nm, "t": t})
        self._finish(name, mode, fields, members, leaf, base, bf=None)
        self.classes[-1]["mid"] = mid
        return self.classes[-1]

    def bfclass(self, leaf=False):
        r = self.r
        i = len(self.classes)
        name = "%sC%d" % (self.p, i)
        nb = r.choice([8, 16, 32, 64, 64])
        sg = r.random() < 0.3
        rest = nb
        L = []
        while rest and len(L) < 8 and (len(L) < 2 or r.random() < 0.85):
            s = r.randrange(1, max(2, rest - (0 if L else 1) + 1))
            if r.random() < 0.5:
                s = min(s, r.randrange(1, 12))
            L.append(s)
            rest -= s
        if (nb, sg, tuple(L)) in self.layouts:
            return self.bfclass(leaf)
        self.layouts.add((nb, sg, tuple(L)))
        decl = []
        fields = []
        pos = 0
        for k, s in enumerate(L):
            nm = "%sm%d" % (name.lower(), k)
            decl.append("using %s = BitMemberDecl<%d, %d>;" % (nm, k, s))
            fields.append({"nm": nm, "t": {"k": "bf", "n": s, "pos": pos, "sg": 1 if sg else 0}})
            pos += s
        if len(fields) > 2 and r.random() < 0.5:
            r.shuffle(fields)
            if r.random() < 0.5:
                fields.pop()
        mode = r.choice(["0", "VARNAMES", "EXTENDED"])
        if leaf and mode == "0":
            mode = "VARNAMES"
        vt = "%sint%d" % ("" if sg else "u", nb)
        pre = "\n".join(decl)
        self._finish(name, mode, fields, None, leaf, False,
                     bf=(pre, vt, ["%sm%d" % (name.lower(), k) for k in range(len(L))], nb // 8))
        return self.classes[-1]

    def _finish(self, name, mode, fields, members, leaf, base, bf):
        r = self.r
        ext = []
        for k, f in enumerate(fields):
            f["al"] = f["d1"] = f["d2"] = ""
            if mode == "EXTENDED":
                fl = r.choice(["", "A", "D", "AD"])
                x = [fl, f["nm"]]
                if "A" in fl:
                    # sometimes an alias that is another member's name
                    f["al"] = ("al %d" % k + self.tail() if r.random() < 0.8 or len(fields) < 2
                               else r.choice([g["nm"] for g in fields]))
                    x.append('"%s"' % f["al"])
                if "D" in fl:
                    f["d1"] = r.choice(["Size is", "x", "some text:"]) + self.tail()
                    f["d2"] = r.choice(["", "m3", "%", "dB % x"]) + self.tail()
                    x.append('"%s"' % (f["d1"] + ("%" + f["d2"] if f["d2"] else "")))
                ext.append("(%s)" % ", ".join(x))
        if bf:
            self.cpp.append("%s\nusing %s = BitFieldType<%s, %s>;" % (
                bf[0], name, bf[1], ", ".join(bf[2])))
        else:
            self.cpp.append("struct %s%s {\n  %s;\n  void ReflectorTag(); };" % (
                name, " : " + self.basefmt % name if base else "", ";\n  ".join(members)))
        kind = "BITFIELD, " if bf else ""
        if mode == "0":
            self.cpp.append("REFLECTOR_CREATE(%s, %s0, %s)" % (
                name, kind, ", ".join(f["nm"] for f in fields)))
        elif mode == "VARNAMES":
            self.cpp.append("REFLECTOR_CREATE(%s, %s1, VARNAMES, %s)" % (
                name, kind, ", ".join(f["nm"] for f in fields)))
        else:
            self.cpp.append("REFLECTOR_CREATE(%s, %s1, EXTENDED, %s)" % (name, kind, ", ".join(ext)))
        if bf:
            vis = "f(0, o.value);"
        else:
            vis = " ".join("f(%d, o.%s);" % (k, f["nm"]) for k, f in enumerate(fields))
        self.cpp.append("template <class F> void Visit(%s &o, F &&f) { %s }" % (name, vis))
        self.cpp.append("template <> struct IsVisitable<%s> : std::true_type {};" % name)
        sch = {"cls": codes(name), "named": 0 if mode == "0" else 1,
               "bf": 1 if bf else 0, "w": bf[3] if bf else 0,
               "fields": [{"nm": codes(f["nm"]), "al": codes(f["al"]), "d1": codes(f["d1"]),
                           "d2": codes(f["d2"]), "t": f["t"]} for f in fields]}
        if mode != "0":
            self.reg.append(name)
        self.classes.append({"c": name, "sch": sch, "leaf": leaf, "base": base, "bf": bool(bf), "mid": False,
                             "fields": fields, "mode": mode})

    def source(self, table=True):
        s = "\n".join(self.cpp) + "\n"
        s += "void RegisterAll() { RegisterReflectedTypes<%s>(); }\n" % ", ".join(self.reg)
        if table:
            s += "static Any *MakeClass(int i, int w) {\n switch (i) {\n"
            for i, c in enumerate(self.classes):
                s += " case %d: return Make<%s, %s>(w);\n" % (i, c["c"], "true" if c["base"] else "false")
            s += " }\n return nullptr;\n}\n"
        return s
