"""C14: RunThreadedQueue."""
import concurrent.futures as cf
import random
from vlib.core import CheckError

ASSUMPTIONS = ["the number of hardware threads is what std::thread::hardware_concurrency reports "
               "(the driver supplies the value)",
               "task bodies are observed through a log that begins after a body started and ends "
               "before it returned, so the recorded overlap never exceeds the real one"]


def run(ctx):
    ctx.model_check("TaskQueue_MC.tla", "TaskQueue_MC.cfg", what="up to 4 tasks, 0..3 hardware threads; termination under fairness")
    ctx.model_check("TaskQueue_MC.tla", "TaskQueue_MC2.cfg", what="task 0 never ends: the others still run")
    exe = ctx.build("taskqueue")
    rnd = random.Random(ctx.seed)
    progs = ctx.generate("TaskQueue_Gen.tla", "TaskQueue_Gen.cfg")
    if ctx.thorough:
        progs += ctx.generate("TaskQueue_Gen.tla", "TaskQueue_GenL.cfg", num=400, depth=40)
    calls = []
    for p in progs:
        calls.append(("gate", p["n"], p["hw"], 0, 0, 0, len(calls) % 4, p["ends"]))
    for k in range(1500 if ctx.thorough else 160):
        hw = rnd.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 16))
        n = rnd.choice((0, 1, 2, 3, hw, hw + 1, max(hw, 1) - 1, 2 * hw, 2 * hw + 1, rnd.randrange(60)))
        spread = rnd.choice((0, 0, 3, 50, 400))
        thr = rnd.choice((0, 0, 0, 2, 5))
        calls.append(("free", n, hw, rnd.randrange(1 << 30), spread, thr, rnd.randrange(4), []))
    for n, hw in ((300, 2), (257, 8), (256, 3), (512, 1), (128, 2), (70, 64), (300, 260), (1000, 3)):
        calls.append(("free", n, hw, 1, 0, 0, 0, []))
    # a slow first task with many quick ones behind it
    for hw in (2, 3, 8):
        n = 3 * hw + 4
        calls.append(("gate", n, hw, 0, 0, 0, 1, list(range(1, n)) + [0]))
        calls.append(("gate", n, hw, 0, 0, 0, 0, [x for x in range(n) if x != hw - 1] + [hw - 1]))
    ops = [({"n": c[1], "hw": c[2]}, " ".join(map(str, list(c[:7]) + list(c[7])))) for c in calls]
    chunks = [ops[i::8] for i in range(8)]

    def job(ch):
        tr, died = ctx.exec_ops(exe, ch, timeout=300)
        flat = []
        own = []
        for i, r in enumerate(tr):
            flat.append({"op": "call", "n": r["n"], "hw": r["hw"], "i": 0})
            own.append(i)
            for e in r["events"]:
                flat.append({"op": e["op"], "i": e["i"], "n": 0, "hw": 0})
                own.append(i)
        ok, info = ctx.validate("TaskQueue_Trace.tla", "TaskQueue_Trace.cfg", flat) if flat else (True, {})
        return ch, tr, died, flat, own, ok, info

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(job, chunks))
    for ch, tr, died, flat, own, ok, info in res:
        if not ok:
            at = min(info["at"] - 1, len(flat) - 1)
            call = own[at]
            one = [f for f, o in zip(flat, own) if o == call]
            ok2, info2 = ctx.validate("TaskQueue_Trace.tla", "TaskQueue_Trace.cfg", one)
            if ok2:
                raise CheckError("rejection did not repeat: %s" % info)
            ctx.violate("queue", {"failing_call": ch[call][1], "events": one[:200], "tlc": info2})
        if died:
            k = len(tr)
            rec, died2 = ctx.exec_ops(exe, [ch[k]] * 3, timeout=100)
            if died2:
                ctx.violate("queue", {"failing_call": ch[k][1], "died": died2})
            raise CheckError("driver " + died)
        ctx.traces += len(tr)
        ctx.events += len(flat)
    ctx.parts.append({"conformance": "queue", "specification": "TaskQueue_Trace.tla",
                      "sessions": len(ops), "events_validated": ctx.events})
    ctx.sample({"calls": [o[1] for o in ops[100:130]]})
