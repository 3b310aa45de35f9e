---------------------------- MODULE Reflect_Trace ----------------------------
EXTENDS Reflect, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ sch = <<>> /\ val = <<>>

RECURSIVE Effect(_, _, _, _, _)       \* the value of the object after the call op on r
Effect(c, v, op, r, out) ==
  CASE op = "set" -> LET x == SetMember(c, v, r.key, r.text)
                     IN  [ok |-> Expect("error", out.err, x.e), v |-> x.v]
    [] op = "setsub" -> LET x == SetItem(c, v, r.key, r.sub, r.text)
                        IN  [ok |-> Expect("error", out.err, x.e), v |-> x.v]
    [] op = "setel" -> LET x == SetElement(c, v, r.key, r.sub, r.el, r.text)
                       IN  [ok |-> Expect("error", out.err, x.e), v |-> x.v]
    [] op \in {"seti", "setu"} ->
         LET x == SetNumber(c, v, r.key, r.sub, IF op = "seti" THEN "int" ELSE "uint",
                            LAMBDA n : B!Trunc(r.num, n))
         IN  [ok |-> Expect("error", out.err, x.e), v |-> x.v]
    [] op = "setf" ->
         LET x == SetNumber(c, v, r.key, r.sub, "flt",
                            LAMBDA n : FltEnc(n, r.w16 < 0, IF r.w16 < 0 THEN -r.w16 ELSE r.w16))
         IN  [ok |-> Expect("error", out.err, x.e), v |-> x.v]
    [] op = "get" -> [ok |-> Expect("text", out.txt, GetMember(c, v, r.key)), v |-> v]
    [] op = "getsub" -> [ok |-> Expect("text", out.txt, GetItem(c, v, r.key, r.sub)), v |-> v]
    [] op = "getel" -> [ok |-> Expect("text", out.txt, GetElement(c, v, r.key, r.sub, r.el)), v |-> v]
    [] op = "pair" -> LET p == Pair(c, v, r.key, r.al = 1, r.fm = 1)
                      IN  [ok |-> Expect("name", out.nm, p.nm) /\ Expect("text", out.txt, p.txt), v |-> v]
    [] op = "info" ->
         [ok |-> /\ Expect("is array", out.arr, IF IsArr(c, r.key) THEN 1 ELSE 0)
                 /\ Expect("is class", out.sub, IF IsSub(c, r.key) THEN 1 ELSE 0)
                 /\ Expect("members", out.num, Len(c.fields))
                 /\ Expect("named", out.named, c.named)
                 /\ Expect("class name", out.cls, IF c.named = 1 THEN c.cls ELSE <<>>),
          v |-> v]
    [] op = "rt" ->                 \* the printed text restores the value exactly
         [ok |-> /\ Expect("text", out.txt, GetMember(c, v, r.key))
                 /\ Expect("error", out.err, SetMember(c, v, r.key, out.txt).e)
                 /\ Expect("second text", out.txt2, out.txt),
          v |-> v]
    [] op = "sub" ->
         LET q == SubClass(c, v, r.key, r.sub)
         IN  IF ~q.ok THEN [ok |-> Expect("no class", out.null, 1), v |-> v]
             ELSE LET x == Effect(q.c, q.v, r.in.op, r.in, out)
                  IN  [ok |-> Expect("no class", out.null, 0) /\ x.ok,
                       v |-> IF q.many THEN [v EXCEPT ![q.i][r.sub + 1] = x.v]
                             ELSE [v EXCEPT ![q.i] = x.v]]

Seen == Expect("members", Rec.val, val')
Reset == Rec.op = "reset" /\ sch' = Rec.sch /\ val' = Rec.val
Raw == Rec.op = "raw" /\ UNCHANGED sch /\ val' = [val EXCEPT ![Rec.f + 1] = Rec.to] /\ Seen
\* any value whatever survives printing and setting, to the printed precision
Precise == /\ Rec.op = "rtf" /\ UNCHANGED sch
           /\ Expect("error", Rec.err, None) /\ Expect("second text", Rec.txt2, Rec.txt)
           /\ val' = Rec.val /\ Expect("close", Rec.close, 1)
           /\ \A i \in 1..Len(val) : i # Rec.f + 1 => Expect("other member", Rec.val[i], val[i])
Call == /\ Rec.op \notin {"reset", "raw", "rtf"} /\ UNCHANGED sch
        /\ LET x == Effect(sch, val, Rec.op, Rec, Rec) IN x.ok /\ val' = x.v
        /\ Seen
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Expect("bytes outside the members", Rec.ok, 1) /\ (Reset \/ Raw \/ Precise \/ Call)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
