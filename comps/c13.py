"""C13: message printer."""
import concurrent.futures as cf
import json
import random
from vlib.core import CheckError, hx, DRV
import os

ASSUMPTIONS = ["messages consist of printable ASCII and contain their thread and number",
               "threads are known by the low 32 bits of their id, as printed"]
TY = ("MSG", "MSG", "WRN", "ERR", "INF")


def body(rnd, t, k, big):
    tag = "[%d.%d:" % (t, k)
    n = rnd.choice(big) if big else rnd.choice((0, 1, 5, 20, 60))
    s = tag + "".join(rnd.choice("abcdefghij KLMNOP,.-+0123456789%s") for _ in range(max(0, n - len(tag) - 1))) + "]"
    return s


def pieces(rnd, s):
    r = []
    while s:
        k = rnd.choice((1, 2, 5, len(s)))
        r.append(s[:k])
        s = s[k:]
    return r


def msg(rnd, t, k, big=None, empty=False):
    ty = rnd.choice(TY)
    p = [] if empty else pieces(rnd, body(rnd, t, k, big))
    if len(p) > 40:
        p = p[:40] + ["".join(p[40:])]
    # no piece may read as a number with another spelling
    return "msg %d %s %d %d %d %d %s" % (t, ty, 0 if rnd.random() < 0.2 else 1, rnd.randrange(2), rnd.randrange(2),
                                         rnd.choice((0, 0, 1, 2, 99)), " ".join(hx(x.encode()) for x in p))


def session(rnd, kind):
    L = []
    ns = rnd.randrange(1, 5)
    for s in range(1, ns + 1):
        L.append("add %d %d" % (s, rnd.randrange(2)))
        if rnd.random() < 0.4:
            L.append("add %d %d" % (rnd.randrange(1, s + 1), rnd.randrange(2)))   # twice
    k = 0
    if kind == "long":
        for n in list(range(2040, 2054)) + [100, 4095, 4096, 5000, 20, 2046, 2047, 2048, 30, 20000, 3]:
            k += 1
            L.append(msg(rnd, 1, k, [n]))
        L.append("go")
        for n in (5000, 10, 2047, 10):
            k += 1
            L.append(msg(rnd, 3, k, [n]))
        L.append("go")
        return L
    if kind == "huge":
        for n in (66000, 10):
            k += 1
            L.append(msg(rnd, 2, k, [n]))
        L.append("go")
        return L
    if kind == "alone":
        for rep in range(3):
            L.append("tid %d" % rnd.randrange(2))
            for _ in range(12):
                k += 1
                L.append(msg(rnd, 1, k, empty=rnd.random() < 0.1))
            L.append("go")
            L.append("add %d 1" % rnd.randrange(1, 7))
        return L
    L.append("slow %d" % (rnd.random() < 0.8))
    L.append("tid %d" % (rnd.random() < 0.4))
    nt = rnd.randrange(2, 9)
    if kind == "adding":
        d = 200 if rnd.random() < 0.5 else 20
        for s in range(1, 7):
            L.append("lateadd %d %d %d" % (s, rnd.randrange(2), rnd.randrange(d)))
    per = rnd.choice((3, 8, 20))
    for t in rnd.sample(range(1, 9), nt):
        for _ in range(per):
            k += 1
            L.append(msg(rnd, t, k, [2047, 2048, 2500, 30] if rnd.random() < 0.05 else None))
    L.append("go")
    return L


def run(ctx):
    ctx.model_check("Printer_MC.tla", "Printer_MC.cfg",
                    what="2 threads with 2 messages each, 2 sinks added at any time")
    if ctx.thorough:
        ctx.model_check("Printer_MC.tla", "Printer_MC3.cfg", workers=8, timeout=1500,
                        what="3 threads, 2 sinks")
    exe = ctx.build("printer", repo_sources=["datas/master_printer.cpp",
                                             os.path.join(DRV, "printer_tu2.cpp")])
    rnd = random.Random(ctx.seed)
    n = 40 if ctx.thorough else 5
    ses = []
    for k in range(n):
        ses += [session(rnd, "alone"), session(rnd, "adding"), session(rnd, "adding")]
        ses += [session(rnd, "threads") for _ in range(5)]
    for _ in range(2):
        ses.append(session(rnd, "long"))
    ses.append(session(rnd, "huge"))
    reset = {"op": "reset", "t": 0, "s": 0, "text": "", "type": "", "nl": 0, "tid": ""}

    def record(s):
        rc, out, err = ctx.run_driver(exe, stdin_text="\n".join(s) + "\n", timeout=60)
        return rc, [json.loads(x) for x in out.split("\n") if x], err

    def job(group):
        tr = []
        own = []
        for i, s in group:
            rc, t, err = record(s)
            if rc != 0:
                return ("died", i, s, rc, err)
            tr += [reset] + t
            own += [i] * (len(t) + 1)
        ok, info = ctx.validate("Printer_Trace.tla", "Printer_Trace.cfg", tr)
        if ok:
            return ("ok", len(tr))
        at = min(info["at"] - 1, len(tr) - 1)
        i = own[at]
        one = [e for e, o in zip(tr, own) if o == i]
        k = at - own.index(i)
        return ("bad", i, ses[i], one, info, k)

    groups = [list(enumerate(ses))[g::8] for g in range(8)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(job, groups))
    for r in res:
        if r[0] == "died":
            again = [record(r[2])[0] for _ in range(20)]
            if any(a != 0 for a in again) or True:
                ctx.violate("printer", {"failing_call": "session of the printer", "session_ops": r[2][:60],
                                        "what": "the driver died: %s; again: %s" % (r[3], again), "stderr": r[4][-500:]})
        if r[0] == "bad":
            one, k = r[3], r[5]
            ok, info = ctx.validate("Printer_Trace.tla", "Printer_Trace.cfg", one)
            if ok:
                raise CheckError("rejection did not repeat")
            ctx.violate("printer", {"failing_call": one[k], "events": one[max(0, k - 60):k + 3],
                                    "session_ops": r[2][:60], "tlc": info})
    for r in res:
        ctx.events += r[1]
    ctx.traces += len(ses)
    ctx.parts.append({"conformance": "printer", "specification": "Printer_Trace.tla",
                      "sessions": len(ses), "events_validated": ctx.events})
    ctx.sample({"session": ses[1][:30]})
