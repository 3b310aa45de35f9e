"""C32: settings, their help and logs."""
import os, random, tempfile
from vlib import refgen, reflops

ASSUMPTIONS = ["settings are of classes with named members; classes and enumerations within are registered",
               "the folder of a log exists; each log has its own name",
               "values of enumerations and flags have names (others are reported as errors, in the log too)"]


def named(t, v):
    if t["k"] in ("arr", "vec"):
        return all(named(t["el"], x) for x in v)
    if t["k"] == "flags":
        return not int.from_bytes(bytes(v), "little") & ~sum({1 << i["v"][0] for i in t["items"]})
    return t["k"] != "enum" or any(i["v"][:t["n"]] == v for i in t["items"])


def hasenum(t):
    return t["k"] == "enum" or (t["k"] == "arr" and hasenum(t["el"]))


def raw(cc, c, i=None):
    """a value for a member; those of enumerations have names"""
    while True:
        r = cc.raw(c, i)
        if named(c["fields"][r[0]["f"]]["t"], r[0]["to"]):
            return r


def run(ctx):
    ctx.model_check("Settings_MC.tla", "Settings_MC8.cfg" if ctx.thorough else "Settings_MC.cfg",
                    what="settings with a nested class: values set, logs begun, messages said in any order of %d steps" % (8 if ctx.thorough else 6))
    rnd = random.Random(ctx.seed * 13 + 32)
    g = refgen.Gen(rnd)
    for _ in range(4):
        g.enum()
    for mb in (8, 32):
        g.enum(True, mb)
    for _ in range(2):
        g.bfclass(leaf=True)
    for k in range(4):
        g.klass(rnd.randrange(2, 6), leaf=True, mode=["VARNAMES", "EXTENDED"][k % 2])
    g.klass(0, inv=["class", "arr:class", "enum", "int"], mid=True, mode="EXTENDED")
    g.klass(0, inv=["mid", "int", "class"], mid=True, mode="VARNAMES")
    g.basefmt = "SettingsManager<%s>"
    first = len(g.classes)
    g.klass(0, inv=["arr:bf", "int", "bf"], base=True, mode="EXTENDED")
    g.klass(0, inv=["bf", "mid", "arr:bf", "arr:enum", "arr:flags", "arr:str"], base=True, mode="VARNAMES")
    g.long = .1
    for k in range(24 if ctx.thorough else 10):
        allow = rnd.choice([("int", "flt", "bool", "enum", "str"), ("class", "mid", "arr", "enum", "bool"),
                            ("int", "flt", "bool", "enum", "flags", "str", "vec", "arr", "class", "mid")])
        g.klass(rnd.randrange(1, 10), base=True, mode=rnd.choice(["EXTENDED", "EXTENDED", "VARNAMES"]), allow=allow)
    with open(os.path.join(ctx.work, "classes.inc"), "w") as f:
        f.write(g.source(table=False))
    with open(os.path.join(ctx.work, "table.inc"), "w") as f:
        f.write("static Man *MakeMan(int i) {\n switch (i) {\n%s }\n return nullptr;\n}\n" % "".join(
            " case %d: return new ManOf<%s>;\n" % (i, g.classes[i]["c"]) for i in range(first, len(g.classes))))
    exe = ctx.build("settings", ["datas/reflector.cpp", "datas/master_printer.cpp"], flags=["-I" + ctx.work, "-O1"])

    def scratch():
        d = tempfile.mkdtemp(dir=ctx.work)
        os.mkdir(d + "/sub")
        os.chmod(d, 0o777)
        os.chmod(d + "/sub", 0o777)
        return d
    ses = []
    no = 0
    for i in range(first, len(g.classes)):
        c = g.classes[i]["sch"]
        cc = reflops.Calls(rnd, g)
        for rep in range(8 if ctx.thorough else 4):
            s = [({"op": "reset", "sch": c, "val": reflops.zero_class(c)}, "reset %d" % i), ({"op": "help"}, "help")]
            for k, f in enumerate(c["fields"]):
                if hasenum(f["t"]):
                    s.append(raw(cc, c, k))
            names = []
            for _ in range(rnd.randrange(3, 16)):
                q = rnd.random()
                if q < .3:
                    s.append(raw(cc, c))
                elif q < .45 or (not names and q < .7):
                    no += 1
                    nm = "%s%s%d" % (rnd.choice(["", "", "sub/"]), rnd.choice(["log", "tool.settings", "a-b", "x_"]), no)
                    names.append(nm)
                    s.append(({"op": "log", "name": list(nm.encode())}, "log " + nm))
                elif q < .8:
                    k = rnd.choice(["line", "line", "warning", "error"])
                    t = rnd.choice(["", "done", "two words", "a\tb", "100%", "%s %d", "line\nline", "x" * rnd.randrange(1, 200), "x" * rnd.randrange(2000, 5000) if rnd.random() < .2 else "y", "\u00e9\u4e2d"]).encode()
                    s.append(({"op": "say", "kind": k, "text": list(t)}, "say %s x%s" % (k, t.hex())))
                elif names:
                    nm = rnd.choice(names)
                    s.append(({"op": "read", "name": list(nm.encode())}, "read " + nm))
                else:
                    s.append(({"op": "help"}, "help"))
            for nm in names:
                s.append(({"op": "read", "name": list(nm.encode())}, "read " + nm))
            ses.append(s)
    ctx.conform(exe, "Settings_Trace.tla", "Settings_Trace.cfg", ses, "settings", chunk=5, unpriv=True, cwd_factory=scratch)
    ctx.sample({"session": [y[:120] for _, y in ses[0]][:12]})
