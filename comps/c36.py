"""C36: test programs."""
import os, random
ASSUMPTIONS = ["test functions are written with the check macros and return 0 or 1", "expressions have no side effects and are not NaN",
               "at most 89 cases, members or names, the most the loop macros take"]
PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "+": 9, "-": 9, "*": 10}
CMP = ["==", "!=", "<", ">", "<=", ">="]
LIMIT = 89


class Src:
    def __init__(self, rnd):
        self.r = rnd

    def txt(self, x, lo=0):
        k = x["k"]
        if k == "n":
            v = x["v"]
            s = str(v) if x["t"] == "i" else ("%g" % (v / 4.0) + ("" if v % 4 else ".0"))  + "f"
            p = 12 if v >= 0 else 11
        elif k == "v":
            s, p = x["x"], 12
        elif k == "u":
            i = self.txt(x["l"], 11)
            s, p = x["o"] + ("(%s)" % i if i[0] in "-~" else i), 11
        elif k == "b":
            p = PREC[x["o"]]
            s = "%s %s %s" % (self.txt(x["l"], p), x["o"], self.txt(x["r"], p + 1))
        else:
            p = 0
            s = "%s ? %s : %s" % (self.txt(x["q"], 1), self.txt(x["l"]), self.txt(x["r"]))
        if p < lo or (p < 12 and self.r.random() < .08):
            s = "(%s)" % s
        return s

    def leaf(self, t):
        r = self.r
        if t == "i":
            return {"k": "n", "v": r.randrange(-3, 10), "t": t} if r.random() < .35 else {"k": "v", "x": r.choice("abcx"), "t": t}
        if t == "f":
            return {"k": "n", "v": r.randrange(-9, 30), "t": t} if r.random() < .3 else {"k": "v", "x": r.choice("fg"), "t": t}
        return {"k": "v", "x": r.choice("st" if t == "s" else "pq"), "t": t}

    def ex(self, t, d):
        r = self.r
        if d == 0 or r.random() < .2:
            return self.leaf(t)
        y = r.random()
        if y < .15:
            return {"k": "c", "q": self.ex("i", d - 1), "l": self.ex(t, d - 1), "r": self.ex(t, d - 1), "t": t}
        if t == "o":
            return self.leaf(t)
        if t == "s":
            return {"k": "b", "o": "+", "l": self.ex(t, d - 1), "r": self.ex(t, d - 1), "t": t}
        if t == "f":
            return {"k": "b", "o": r.choice("+-"), "l": self.ex(r.choice("iff"), d - 1), "r": self.ex("f", d - 1), "t": t}
        if y < .25:
            return {"k": "u", "o": r.choice("!!-~"), "l": self.ex(t, d - 1), "t": t}
        o = r.choice(CMP + ["&&", "||", "&", "|", "^", "+", "-", "*", "&&", "||"])
        if o in ("==", "!="):
            u = r.choice("iiifso")
            v = r.choice("if") if u in "if" else u
        elif o in CMP:
            u, v = r.choice("iif"), r.choice("iif")
        else:
            u = v = "i"
        if o == "*":
            return {"k": "b", "o": o, "l": self.leaf("i"), "r": self.leaf("i"), "t": "i"}
        return {"k": "b", "o": o, "l": self.ex(u, d - 1), "r": self.ex(v, d - 1), "t": "i"}


Z = {"k": "n", "v": 0, "t": "i"}


def run(ctx):
    ctx.model_check("TestRun_MC.tla", "TestRun_MC3.cfg" if ctx.thorough else "TestRun_MC.cfg",
                    what="programs of up to %d cases of up to two checks" % (3 if ctx.thorough else 2))
    rnd = random.Random(ctx.seed * 7 + 36)
    sr = Src(rnd)
    out = ['static const char program_file[] = __FILE__;']
    cases = []

    def check(easy):
        r = rnd.random()
        if r < .1:
            x = sr.leaf("i") if rnd.random() < .3 else {"k": "v", "x": "e", "t": "i"}
            w = rnd.choice(["std::runtime_error", "std::exception", "std::logic_error", "int"])
            return {"m": "THROW", "a": x, "b": Z, "ta": w, "tb": ""}, "TEST_THROW(%s, %s)" % (w, rnd.choice(["Fire(%s);", "{ Fire(%s); }", "int i = %s; Fire(i);"]) % sr.txt(x))
        m = rnd.choice(["CHECK", "NOT_CHECK", "EQUAL", "NOT_EQUAL", "GT", "LT", "GT_EQ", "LE_EQ"])
        t = rnd.choice("iiiffso") if "EQUAL" in m else rnd.choice("iiif")
        u = rnd.choice("if") if t in "if" else t
        if m.endswith("CHECK"):
            x = sr.ex("i", rnd.choice((1, 2, 2, 3)))
            return {"m": m, "a": x, "b": Z, "ta": sr.txt(x), "tb": ""}, None
        d = 0 if easy else 2
        x, y = sr.ex(t, rnd.randrange(0, d + 1)), sr.ex(u, rnd.randrange(0, d + 1))
        return {"m": m, "a": x, "b": y, "ta": sr.txt(x), "tb": sr.txt(y)}, None

    ncase = 400 if ctx.thorough else 120
    for i in range(ncase):
        kind = rnd.randrange(4)
        nm = "case%d" % i
        if kind == 1:
            out.append("namespace sub {")
        if kind == 2:
            out.append("struct Suite%d {" % i)
        if kind == 3:
            out.append("template <int N>")
        out.append("static int %s(int x) {" % nm)
        ch = []
        for _ in range(rnd.choice((0, 1, 1, 2, 3, 5))):
            c, text = check(rnd.random() < .5)
            text = text or ("TEST_%s(%s)" % (c["m"], c["ta"]) if c["m"].endswith("CHECK") else "TEST_%s(%s, %s)" % (c["m"], c["ta"], c["tb"]))
            out.append("  " + text + rnd.choice(["", ";"]))
            c["at"] = len(out)
            ch.append(c)
        out.append("  return 0;\n}")
        out = "\n".join(out).split("\n")
        if kind == 1:
            out.append("}")
        if kind == 2:
            out.append("};")
        cases.append(({1: "sub::", 2: "Suite%d::" % i}.get(kind, "") + nm + ("<%d>" % rnd.randrange(9) if kind == 3 else ""), ch))
    sizes = [1, 2, 3, 85, 86, 87, 88, 89] + [rnd.randrange(2, 12) for _ in range(20)] + [rnd.randrange(12, 89) for _ in range(4)]
    progs = []
    for i, n in enumerate(sizes):
        pick = []
        calls = []
        for _ in range(n):
            nm, ch = rnd.choice(cases)
            x = rnd.randrange(-2, 6)
            pick.append({"name": nm, "x": x, "checks": ch})
            calls.append("TEST_FUNC(%s, %d)" % (nm, x))
        if rnd.random() < .5:
            out.append("static int prog%d() { TEST_CASES(int r, %s); return r; }" % (i, ", ".join(calls)))
        else:
            out.append("static int prog%d() { int r = 7; TEST_CASES(r, %s); return r; }" % (i, ", ".join(calls)))
        progs.append(pick)
    out.append("static int (*programs[])() = {%s};" % ", ".join("prog%d" % i for i in range(len(sizes))))
    wide = list(range(1, 90)) if ctx.thorough else sorted({1, 2, 85, 86, 87, 88, 89} | {rnd.randrange(3, 85) for _ in range(5)})
    want = []
    for k, n in enumerate(wide):
        nm = ["m%d_%s" % (j, "abcdefgh"[(j * 7 + n) % 8]) for j in range(n)]
        want.append(nm)
        out.append("struct W%d : ReflectorBase<W%d> { int %s; };" % (k, k, ", ".join(x + " = 0" for x in nm)))
        out.append("REFLECTOR_CREATE(W%d, 1, VARNAMES, %s);" % (k, ", ".join(nm)))
        out.append("REFLECTOR_CREATE(E%d, ENUM, 1, CLASS, %s);" % (k, ", ".join(nm)))
    out.append("static std::vector<std::string> (*members[])(size_t &, long long &) = {%s};" % ", ".join("Members<W%d>" % i for i in range(len(wide))))
    out.append("static std::vector<std::string> (*names[])() = {%s};" % ", ".join("Names<E%d>" % i for i in range(len(wide))))
    with open(os.path.join(ctx.work, "programs.inc"), "w") as f:
        f.write("\n".join(out) + "\n")
    ctx.usable("testrun", "test programs, classes or enumerations of up to 89 items do not compile", flags=["-I" + ctx.work, "-w"])
    exe = ctx.build("testrun", ["datas/reflector.cpp", "datas/master_printer.cpp"], flags=["-I" + ctx.work, "-O0", "-w"])
    ses = []
    for i, pr in enumerate(progs):
        s = [({"op": "reset", "prog": pr}, "reset")]
        for _ in range((40 if ctx.thorough else 12) if len(pr) < 12 else 3):
            v = [rnd.randrange(-9, 10) if rnd.random() < .5 else rnd.randrange(0, 3) for _ in range(3)] + [rnd.randrange(5)]
            fl = [rnd.randrange(-20, 40) for _ in range(2)]
            if rnd.random() < .3:
                fl[1] = fl[0]
            st = [rnd.choice(["u", "uv", "word", "x1"]) for _ in range(2)]
            ob = [rnd.randrange(3) for _ in range(2)]
            env = dict(zip("abcefgstpq", v + fl + st + ob), x=0)
            s.append(({"op": "run", "env": env}, "run %d %s" % (i, " ".join(map(str, v + fl + st + ob)))))
        ses.append(s)
    s = [({"op": "reset", "prog": []}, "reset")] + [({"op": "names", "want": want[k]}, "names %d" % k) for k in range(len(wide))]
    ses.append(s)
    ctx.conform(exe, "TestRun_Trace.tla", "TestRun_Trace.cfg", ses, "programs", chunk=3, par=8)
    ctx.sample({"session": [y for _, y in ses[10]][:8], "case": cases[3]})
