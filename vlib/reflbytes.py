"""Bytes of saved objects as another program (or another version of a class) would write them."""


def jen(s):
    r = 0
    for c in s:
        r += c
        r += (r << 10) & (2**64 - 1)
        r &= 2**64 - 1
        r ^= r >> 6
        r &= 2**32 - 1
    r += r << 3
    r ^= r >> 11
    r += r << 15
    return r & (2**32 - 1)


def hashb(s):
    return list(jen(bytes(s)).to_bytes(4, "little"))


def varu(v):
    o = []
    for k in range(9):
        if k == 8:
            o.append(v & 255)
            break
        b = v & 127
        v >>= 7
        if v:
            o.append(b | 128)
        else:
            o.append(b)
            break
    return o


def vars_(v):
    m = ~v if v < 0 else v
    if m >= 1 << 55:
        v &= 2**64 - 1
        return [128 | ((v >> (7 * k)) & 127) for k in range(8)] + [v >> 56]
    o = []
    while m > 63:
        o.append(128 | (m & 127))
        m >>= 7
    return o + [m | (64 if v < 0 else 0)]


def chunk(b):
    return varu(len(b)) + b


def num(n, sg, b):
    if n == 1:
        return list(b)
    v = int.from_bytes(bytes(b), "little", signed=sg)
    return vars_(v) if sg else varu(v)


def enc(t, v):
    k = t["k"]
    if k in ("int", "enum"):
        return num(t["n"], True, v)
    if k in ("uint", "flags"):
        return num(t["n"], False, v)
    if k in ("bool", "flt", "str-raw"):
        return list(v)
    if k == "str":
        return list(len(v).to_bytes(4, "little")) + list(v)
    if k in ("arr", "vec"):
        return [x for e in v for x in enc(t["el"], e)]
    c = t["c"]
    return num(c["w"], False, v[0]) if c["bf"] else enc_class(c, v)


def enc_class(c, v):
    b = varu(len(c["fields"]))
    for f, x in zip(c["fields"], v):
        b += hashb(f["nm"]) + chunk(enc(f["t"], x))
    return chunk(b)


def encoded(c, v):
    return (hashb(c["cls"]) if c["named"] else [0] * 4) + enc_class(c, v)
