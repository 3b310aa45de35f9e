"""Calls on generated reflected classes, as records for the specification and driver lines."""
import os
from vlib.core import hx
from vlib import refgen


def zero(t):
    k = t["k"]
    if k in ("arr", "vec"):
        return [zero(t["el"]) for _ in range(t["cnt"])]
    if k == "class":
        return zero_class(t["c"])
    return [0] * t["n"]


def zero_class(c):
    if c["bf"]:
        return [[0] * c["w"]]
    return [zero(f["t"]) for f in c["fields"]]


def flat(t, v):
    k = t["k"]
    if k in ("arr", "vec"):
        return [x for e in v for x in flat(t["el"], e)]
    if k == "class":
        if t["c"]["bf"]:
            return list(v[0])
        return [x for f, e in zip(t["c"]["fields"], v) for x in flat(f["t"], e)]
    if k == "str":
        return [len(v)] + list(v)
    return list(v)


def dyadic(r, n):
    """sixteenths with at most 6 (4 bytes) or 12 significant digits"""
    t = r.random()
    if t < 0.2:
        return r.randrange(0, 64) * 4
    if t < 0.5:
        w = r.randrange(0, 100 * 16)
    elif t < 0.8:
        w = r.randrange(0, 1000000) * 16
    else:
        w = r.randrange(0, 20000) * 8
    if n == 8 and t > 0.75:
        w = r.randrange(0, (1 << 31) - 1)
    return w if r.random() < 0.7 else -w


def fltbytes(w, n):
    import struct
    return list(struct.pack("<f" if n == 4 else "<d", w / 16.0))


def rawval(r, t):
    """a random value of the type"""
    k = t["k"]
    if k in ("arr", "vec"):
        return [rawval(r, t["el"]) for _ in range(t["cnt"])]
    if k == "class":
        c = t["c"]
        if c["bf"]:
            return [[r.randrange(256) for _ in range(c["w"])]]
        return [rawval(r, f["t"]) for f in c["fields"]]
    if k == "bool":
        return [r.randrange(2)]
    if k == "flt":
        return fltbytes(dyadic(r, t["n"]), t["n"])
    if k == "str":
        return list(r.choice([b"", b"a", b"text", b"two words", b"x" * 40, bytes(r.randrange(33, 127) for _ in range(r.randrange(1, 20)))]))
    n = t["n"]
    q = r.random()
    if k in ("enum",) and q < 0.8:
        return r.choice(t["items"])["v"][:n]
    if k == "flags" and q < 0.5:
        v = 0
        for it in t["items"]:
            if r.random() < 0.5:
                v |= 1 << it["v"][0]
        return list(v.to_bytes(n, "little"))
    if q < 0.2:
        return [255] * n
    if q < 0.3:
        return [0] * n
    if q < 0.4:
        return [0] * (n - 1) + [128]
    if q < 0.5:
        return [r.randrange(256)] + [0] * (n - 1)
    return [r.randrange(256) for _ in range(n)]


def blanks(r):
    return r.choice(["", "", "", " ", "\t", "  ", " \t "])


def inttext(r, w, sg):
    lim = [0, 1, 2, 9, 10, (1 << w) - 1, 1 << w, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << (w - 1)) + 1,
           (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 5, 10 ** 25,
           r.getrandbits(w), r.getrandbits(w), r.getrandbits(max(1, w - 1)), r.getrandbits(8)]
    v = r.choice(lim)
    neg = r.random() < (0.45 if sg else 0.2)
    q = r.random()
    s = ("0x%x" % v if q < 0.2 else "0x%X" % v if q < 0.3 else str(v))
    if q > 0.95:
        s = "00" + s
    s = ("-" if neg else "") + s
    q = r.random()
    if q < 0.06:
        s = r.choice(["", "abc", "-", "x1", "true", "{1}", ".", "--1", "- 1", "z" + s])
    elif q < 0.12:
        s += r.choice([" ", "q", " 12", "\t", ")", "zz"])
    return blanks(r) + s


def flttext(r, n):
    q = r.random()
    if q < 0.08:
        return r.choice(["inf", "-inf"])
    if q < 0.2:
        big = r.choice([39, 45, 60]) if n == 4 else r.choice([309, 400, 1000])
        low = r.choice([39, 42, 60, 400]) if n == 4 else r.choice([309, 320, 400])
        return blanks(r) + r.choice(["", "-"]) + "1" + r.choice(["e", "e"]) + r.choice([str(big), "-" + str(low)])
    if q < 0.27:
        return r.choice(["", "abc", "-", "true", "[1]", ".", "--1", " "])
    w = dyadic(r, n)
    a = abs(w)
    s = str(a // 16)
    fr = ("%04d" % (a % 16 * 625)).rstrip("0")
    if fr:
        s += "." + fr + ("0" if r.random() < 0.1 else "")
    elif r.random() < 0.2:
        s += "." + r.choice(["", "0"])
    if r.random() < 0.07:
        s += r.choice([" ", "x", "]", " 1"])
    return blanks(r) + ("-" if w < 0 else "") + s


def text_for(r, t, depth=0):
    k = t["k"]
    top = depth == 0
    if k == "bool":
        s = r.choice(["true", "false", "TRUE", "False", "tRuE", "fAlSe", "true", "false"])
        if r.random() < 0.12:
            s = r.choice(["", "1", "0", "yes", "fals", "tru", "truth", "xtrue"])
        elif r.random() < 0.1:
            s += r.choice([" ", "x", "  \t"])
        return (blanks(r) if top else "") + s
    if k in ("int", "uint", "bf"):
        w = t["n"] if k == "bf" else t["n"] * 8
        s = inttext(r, w, k == "int" or t.get("sg") == 1)
        return s if top else s.strip().replace(",", "").replace(")", "").replace("{1}", "q")
    if k == "flt":
        s = flttext(r, t["n"])
        return s if top else s.strip().replace("[1]", "q").replace("]", "")
    if k == "enum":
        nm = bytes(r.choice(t["items"])["nm"]).decode()
        q = r.random()
        if q < 0.1:
            nm = r.choice(["", " ", nm[:-1], nm + "x", "nothing", nm.upper() + "_"])
        return blanks(r) + nm + (blanks(r) if top or r.random() < 0.3 else "")
    if k == "flags":
        n = r.randrange(0, 5)
        ps = []
        for _ in range(n):
            nm = bytes(r.choice(t["items"])["nm"]).decode()
            if r.random() < 0.08:
                nm = r.choice(["", "nothing", nm + "x", "NULL"])
            ps.append(nm)
        if not ps:
            ps = [r.choice(["NULL", "", "NULL"])]
        sep = r.choice(["|", " | ", " |", "| ", "  |\t"])
        return blanks(r) + sep.join(ps) + (r.choice(["", "", "", " ", " |", "|", "| "]) if top else "")
    if k == "str":
        s = r.choice(["", "a", "hello", "two words", "tail  ", "{[(", "q, r", "x" * 50, '"a, b"', "\t"])
        if not top:
            s = r.choice(["a", "hello", "two words", "tail ", '"a, b"', '"x"', "(y, z)", "w"])
        return (blanks(r) if top else "") + s
    if k in ("arr", "vec"):
        o, c = ("{", "}") if k == "arr" else ("[", "]")
        q = r.random()
        cnt = t["cnt"]
        n = cnt
        if q < 0.1:
            n = r.randrange(0, cnt + 1)
        elif q < 0.2:
            n = cnt + r.randrange(1, 3)
        few = .03 if cnt > 200 else 1.      # long texts take long to judge
        ps = [text_for(r, t["el"], depth + 1) if r.random() < few else str(r.randrange(10)) for _ in range(n)]
        if r.random() < 0.06 and n:
            ps[r.randrange(n)] = ""
        # what the text must not look like: ending in a comma
        body = ""
        for i, p in enumerate(ps):
            body += ("," + (r.choice(["", " ", " ", "  "]) if r.random() < few else "") if i else "") + p
        if body.endswith(","):
            body = body.rstrip(", \t")
        elif r.random() < 0.08 and body:
            body += r.choice([", ", ",  ", " "])
        if r.random() < 0.05:
            body = r.choice(["", " ", body])
        if r.random() < 0.06 and body.strip():       # the last item opens what nothing closes
            body += r.choice(["(", "[", '"', " (x", "[1", '"2'])
        s = o + body + c
        if top and r.random() < 0.12:
            s = r.choice([body.replace("{", "").replace("[", "") or "1", c + body + o, o + body.replace("}", "").replace("]", ""),
                          "x" + s, s + " tail", s + s if False else s + "y"])
        return (blanks(r) if top else "") + s
    return r.choice(["", "text", "{1}"])


def some(n):
    """all numbers below n, or those at the edges"""
    return range(n) if n < 20 else [0, 1, 9, 10, 63, 64, 65] + [x for x in (99, 100, 101, 127, 128, 255, 256, 257) if x < n - 3] + [
        n - 3, n - 2, n - 1]


def edges(r, t):
    """texts at the edges of what a member holds"""
    k = t["k"]
    if k in ("int", "uint", "bf"):
        w = t["n"] if k == "bf" else t["n"] * 8
        sg = k == "int" or t.get("sg") == 1
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        vs = [lo, lo - 1, hi, hi + 1, -1, 1, -hi, -hi - 1, 1 << w, -(1 << w), -(1 << w) - 1, (1 << 63) - 1, -(1 << 63), 1 << 63,
              -(1 << 63) - 1, (1 << 64) - 1, 1 << 64, -(1 << 64) + 1, -(1 << 64), 10 ** 23, -10 ** 23]
        return [str(v) for v in vs] + ["%s0x%x" % ("-" if v < 0 else "", abs(v)) for v in r.sample(vs, 6)] + ["-0", "007", "-0x0"]
    if k == "bool":
        return ["true", "false", "TRUE", "FALSE", "tru", "fals", "truefalse", "1"]
    if k == "enum":
        nm = [bytes(i["nm"]).decode() for i in t["items"]]
        return nm + [nm[-1][:-1], nm[0] + "q"]
    if k == "flags":
        nm = [bytes(i["nm"]).decode() for i in t["items"]]
        ps = ["nothing", "", "NULL"] + r.sample(nm, min(2, len(nm)))
        c = [[a, b, d] for a in ps for b in ps for d in ps]
        return [" | ".join(x) for x in r.sample(c, 24)] + ["|".join(nm)]
    if k in ("arr", "vec") and t["cnt"] < 20 and t["el"]["k"] != "class":
        o, c = "{}" if k == "arr" else "[]"
        bad = {"bool": "maybe", "str": "s"}.get(t["el"]["k"], "nothing")
        good = lambda: text_for(r, t["el"], 1).strip() or "1"
        out = []
        for n in (t["cnt"] - 1, t["cnt"], t["cnt"] + 1):
            for q in range(-1, n):
                ps = [bad if j == q else good() for j in range(n)]
                out.append(o + ", ".join(ps) + c)
        return r.sample(out, min(8, len(out)))
    return []


class Calls:
    def __init__(self, r, g):
        self.r = r
        self.g = g

    def key(self, c, i=None):
        """(record, driver word) of a member"""
        r = self.r
        q = r.random()
        n = len(c["fields"])
        if i is None:
            i = r.randrange(n)
        f = c["fields"][i]
        if q < 0.04:
            j = n + r.choice([0, 1, 200, 2 ** 20])
            return {"id": j, "nm": []}, "id %d" % j, None
        if q < 0.1:
            nm = r.choice([b"", b"unknown", bytes(f["nm"]) + b"q", bytes(f["d1"]) or b"?"])
            return {"id": -1, "nm": list(nm)}, "nm " + hx(nm), None
        if q < 0.45:
            return {"id": i, "nm": []}, "id %d" % i, i
        if q < 0.7 and f["al"]:
            j = [k for k, h in enumerate(c["fields"]) if h["nm"] == f["al"]] + [
                k for k, h in enumerate(c["fields"]) if h["al"] == f["al"]]
            return {"id": -1, "nm": f["al"]}, "nm " + hx(f["al"]), j[0]
        return {"id": -1, "nm": f["nm"]}, "nm " + hx(f["nm"]), i

    def anytype(self, c, i):
        r = self.r
        if i is None:
            return r.choice(c["fields"])["t"]
        return c["fields"][i]["t"]

    def sub(self, cnt):
        r = self.r
        return r.randrange(cnt) if r.random() < 0.85 and cnt else cnt + r.choice([0, 1, 3, 1000])

    def pick(self, c, kinds):
        """a member of one of the kinds if there is one"""
        idx = [i for i, f in enumerate(c["fields"]) if f["t"]["k"] in kinds]
        if idx and self.r.random() < 0.85:
            return self.r.choice(idx)
        return None

    def call(self, c, op, depth=0):
        r = self.r
        if op in ("set", "get", "info", "pair", "rt"):
            rec, w, i = self.key(c, getattr(self, "force", None) if depth == 0 else None)
            t = self.anytype(c, i)
            if op == "set":
                s = text_for(r, t).encode()
                return {"op": op, "key": rec, "text": list(s)}, "%s %s %s" % (op, w, hx(s))
            if op == "pair":
                a, b = r.randrange(2), r.randrange(2)
                return {"op": op, "key": rec, "al": a, "fm": b}, "%s %s %d %d" % (op, w, a, b)
            if op == "rt" and (i is None or not rt_ok(t)):
                op = "get"
            return {"op": op, "key": rec}, "%s %s" % (op, w)
        if op in ("setsub", "getsub"):
            i = self.pick(c, ("arr", "vec", "flags"))
            rec, w, i = self.key(c, i)
            t = self.anytype(c, i)
            if t["k"] == "flags":
                sub = self.sub(t["n"] * 8)
                s = text_for(r, {"k": "bool", "n": 1}).encode()
            else:
                sub = self.sub(t.get("cnt", 1))
                s = text_for(r, t.get("el", t)).encode()
            if op == "getsub":
                return {"op": op, "key": rec, "sub": sub}, "%s %s %d" % (op, w, sub)
            return ({"op": op, "key": rec, "sub": sub, "text": list(s)},
                    "%s %s %d %s" % (op, w, sub, hx(s)))
        if op in ("setel", "getel"):
            idx = [i for i, f in enumerate(c["fields"]) if f["t"]["k"] == "arr" and
                   f["t"]["el"]["k"] in ("vec", "flags")]
            i = r.choice(idx) if idx and r.random() < 0.85 else self.pick(c, ("arr",))
            rec, w, i = self.key(c, i)
            t = self.anytype(c, i)
            sub = self.sub(t.get("cnt", 1))
            el = t.get("el", t)
            if el["k"] == "flags":
                e = self.sub(el["n"] * 8)
                s = text_for(r, {"k": "bool", "n": 1}).encode()
            else:
                e = self.sub(el.get("cnt", 1))
                s = text_for(r, el.get("el", el)).encode()
            if op == "getel":
                return {"op": op, "key": rec, "sub": sub, "el": e}, "%s %s %d %d" % (op, w, sub, e)
            return ({"op": op, "key": rec, "sub": sub, "el": e, "text": list(s)},
                    "%s %s %d %d %s" % (op, w, sub, e, hx(s)))
        if op in ("seti", "setu", "setf"):
            k = {"seti": "int", "setu": "uint", "setf": "flt"}[op]
            idx = [i for i, f in enumerate(c["fields"]) if f["t"]["k"] == k or
                   f["t"].get("el", {}).get("k") == k]
            i = r.choice(idx) if idx and r.random() < 0.85 else None
            rec, w, i = self.key(c, i)
            t = self.anytype(c, i)
            sub = self.sub(t["cnt"]) if "cnt" in t else r.choice([0, 0, 0, 0, 1, 5])
            if op == "setf":
                lt = t.get("el", t)
                v = dyadic(r, 4 if lt.get("n") != 8 else 8)
                return {"op": op, "key": rec, "sub": sub, "w16": v}, "%s %s %d %d" % (op, w, sub, v)
            v = rawval(r, {"k": "int", "n": 8})
            return {"op": op, "key": rec, "sub": sub, "num": v}, "%s %s %d %s" % (op, w, sub, hx(v))
        if op == "sub":
            idx = [i for i, f in enumerate(c["fields"]) if f["t"]["k"] == "class" or
                   f["t"].get("el", {}).get("k") == "class"]
            i = r.choice(idx) if idx and r.random() < 0.9 else None
            rec, w, i = self.key(c, i)
            t = self.anytype(c, i)
            sub = self.sub(t["cnt"]) if "cnt" in t else r.choice([0, 0, 0, 1, 5])
            lt = t.get("el", t)
            inner = lt["c"] if lt["k"] == "class" else c
            rin, win = self.call(inner, r.choice(["set", "set", "get", "setsub", "getsub", "info", "rt", "pair"]), depth + 1)
            cst = r.randrange(2)
            return ({"op": op, "key": rec, "sub": sub, "in": rin},
                    "%s %s %d %d %s" % (op, w, sub, cst, win))
        raise KeyError(op)

    def edges(self, c):
        """texts at the edges of every member"""
        out = []
        for i, f in enumerate(c["fields"]):
            for s in edges(self.r, f["t"]):
                key = {"id": i, "nm": []} if self.r.random() < 0.5 else {"id": -1, "nm": f["nm"]}
                w = "id %d" % i if key["id"] >= 0 else "nm " + hx(f["nm"])
                out.append(({"op": "set", "key": key, "text": list(s.encode())}, "set %s %s" % (w, hx(s.encode()))))
        return out

    def sweep(self, c, reading):
        """every item, element and flag of every member once, and the numbers just behind"""
        r = self.r
        out = []
        if c["bf"]:
            return out
        for i, f in enumerate(c["fields"]):
            t = f["t"]
            key = {"id": i, "nm": []} if r.random() < 0.5 else {"id": -1, "nm": f["nm"]}
            w = "id %d" % i if key["id"] >= 0 else "nm " + hx(f["nm"])
            btext = lambda on: (b"true", b"false")[on]
            if t["k"] == "flags" or t.get("el", {}).get("k") == "flags":
                el = t if t["k"] == "flags" else t["el"]
                subs = [None] if t["k"] == "flags" else some(t["cnt"] + 1)
                for v in (255, 0):
                    to = [v] * el["n"] if t["k"] == "flags" else [[v] * el["n"] for _ in range(t["cnt"])]
                    out.append(({"op": "raw", "f": i, "to": to}, "raw %d %s" % (i, hx(flat(t, to)))))
                    for s in subs:
                        fl = list(range(8 * el["n"] + 2))
                        r.shuffle(fl)
                        for b in [8 * el["n"], 8 * el["n"] - 1] + fl[:6]:
                            tx = btext(v == 255)
                            a = {"op": "setsub", "key": key, "sub": b} if s is None else {
                                "op": "setel", "key": key, "sub": s, "el": b}
                            ad = "%s %d" % (w, b) if s is None else "%s %d %d" % (w, s, b)
                            if reading:
                                a["op"] = a["op"].replace("set", "get")
                                out.append((a, "%s %s" % (a["op"], ad)))
                            else:
                                a["text"] = list(tx)
                                out.append((a, "%s %s %s" % (a["op"], ad, hx(tx))))
            if t["k"] in ("arr", "vec"):
                for s in some(t["cnt"] + 2):
                    if reading:
                        out.append(({"op": "getsub", "key": key, "sub": s}, "getsub %s %d" % (w, s)))
                    else:
                        tx = text_for(r, t["el"]).encode()
                        out.append(({"op": "setsub", "key": key, "sub": s, "text": list(tx)},
                                    "setsub %s %d %s" % (w, s, hx(tx))))
                    if t["el"]["k"] == "vec":
                        for e in range(t["el"]["cnt"] + 1):
                            if reading:
                                out.append(({"op": "getel", "key": key, "sub": s, "el": e},
                                            "getel %s %d %d" % (w, s, e)))
                            else:
                                tx = text_for(r, t["el"]["el"]).encode()
                                out.append(({"op": "setel", "key": key, "sub": s, "el": e, "text": list(tx)},
                                            "setel %s %d %d %s" % (w, s, e, hx(tx))))
            lt = t.get("el", t)
            if lt["k"] == "class":
                for s in range(t.get("cnt", 1) + 2):
                    rin, win = self.call(lt["c"], "get" if reading else "set", 1)
                    out.append(({"op": "sub", "key": key, "sub": s, "in": rin},
                                "sub %s %d %d %s" % (w, s, r.randrange(2), win)))
            for op in ("seti", "setu", "setf") if reading else ():
                k = {"seti": "int", "setu": "uint", "setf": "flt"}[op]
                if lt["k"] == k:
                    for s in some(t.get("cnt", 1) + 1):
                        if op == "setf":
                            v = dyadic(r, lt["n"])
                            out.append(({"op": op, "key": key, "sub": s, "w16": v}, "%s %s %d %d" % (op, w, s, v)))
                        else:
                            v = rawval(r, {"k": "int", "n": 8})
                            out.append(({"op": op, "key": key, "sub": s, "num": v}, "%s %s %d %s" % (op, w, s, hx(v))))
        return out

    def raw(self, c, i=None):
        r = self.r
        if c["bf"]:
            v = [r.randrange(256) for _ in range(c["w"])]
            return {"op": "raw", "f": 0, "to": v}, "raw 0 %s" % hx(v)
        if i is None:
            i = r.randrange(len(c["fields"]))
        t = c["fields"][i]["t"]
        v = rawval(r, t)
        return {"op": "raw", "f": i, "to": v}, "raw %d %s" % (i, hx(flat(t, v)))

    def rtf(self, c):
        """floats with any bits; afterwards the member gets an ordinary value again"""
        import struct
        r = self.r
        idx = [i for i, f in enumerate(c["fields"]) if f["t"]["k"] == "flt"]
        if not idx or c["bf"]:
            return []
        i = r.choice(idx)
        n = c["fields"][i]["t"]["n"]
        while True:
            b = [r.randrange(256) for _ in range(n)]
            if r.random() < 0.5:      # moderate magnitudes
                b[n - 1] = r.choice([0x3f, 0xbf, 0x40, 0xc0, 0x41, 0x3e, 0x42])
            v = struct.unpack("<f" if n == 4 else "<d", bytes(b))[0]
            lim = (2e-38, 3.3e38) if n == 4 else (3e-308, 1.7e308)
            if lim[0] < abs(v) < lim[1]:
                break
        return [({"op": "rtf", "f": i}, "rtf %d %s" % (i, hx(b))), self.raw(c, i)]


def rt_ok(t):
    """kinds whose printed text restores the value exactly, whatever it is"""
    k = t["k"]
    if k in ("int", "uint", "bool", "bf", "vec"):
        return True
    if k == "flt":
        return True
    if k == "arr":
        return t["el"]["k"] in ("int", "uint", "bool", "vec")
    return False


def reset(g, i, w):
    c = g.classes[i]["sch"]
    return {"op": "reset", "sch": c, "val": zero_class(c)}, "reset %d %d" % (i, w)


def classes(rnd, nplain, nbf, allow=None):
    g = refgen.Gen(rnd)
    for _ in range(5):
        g.enum()
    for mb in (8, 16, 32, 64, 64):
        g.enum(True, mb)
    for k in range(3):
        g.bfclass(leaf=True)
    for k in range(3):
        g.klass(rnd.randrange(2, 6), leaf=True)
    g.klass(0, inv=["arr:" + k for k in ("int", "flt", "bool", "enum", "flags", "str", "vec", "class", "class", "vec")])
    g.klass(0, inv=["int", "class", "flags", "vec", "enum", "flt", "bool", "str", "arr:int", "int", "arr:class", "flt"])
    g.big = 1.
    g.klass(0, inv=["int", "arr:int"])
    g.bigs = [257, 300]
    g.klass(0, inv=["arr:int", "int"])
    g.big = 0.
    for k in range(nplain):
        g.klass(rnd.randrange(4, 14))
    for k in range(nbf):
        g.bfclass()
    return g


def large(c):
    """whether objects of the class have so many items that little is done with them"""
    return any(f["t"].get("cnt", 0) > 200 for f in c["sch"]["fields"])


def build(ctx, rnd, nplain, nbf, name="reflect"):
    g = classes(rnd, nplain, nbf)
    with open(os.path.join(ctx.work, "classes.inc"), "w") as f:
        f.write(g.source())
    exe = ctx.build(name, ["datas/reflector.cpp", "datas/master_printer.cpp"], flags=["-I" + ctx.work, "-O1"])
    return g, exe
