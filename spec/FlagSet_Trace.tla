---------------------------- MODULE FlagSet_Trace ----------------------------
EXTENDS FlagSet, TraceBase
B == INSTANCE Bytes
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ nb = 8 /\ a = {} /\ b = {}
SetOf(bytes) == {i \in 0..(8*Len(bytes)-1) : B!Bit(bytes, i) = 1}
Reset == Rec.op = "reset" /\ nb' = Rec.nb /\ a' = {} /\ b' = {} /\ Expect("ok", Rec.ok, 1)
Seen ==
  /\ Expect("ok", Rec.ok, 1)
  /\ Expect("word of a", SetOf(Rec.a), a')
  /\ Expect("word of b", SetOf(Rec.b), b')
  /\ Expect("width", 8 * Len(Rec.a), nb)
  /\ Expect("a == b", Rec.eq, IF a' = b' THEN 1 ELSE 0)
  /\ Expect("a != b", Rec.ne, IF a' = b' THEN 0 ELSE 1)
  \* what a[f], a == f, a != f answer for every flag
  /\ Expect("a[f]", {f \in Flag : Rec.has[f + 1] = 1}, a')
  /\ Expect("a == f", {f \in Flag : Rec.eqf[f + 1] = 1}, a')
  /\ Expect("a != f", {f \in Flag : Rec.nef[f + 1] = 1}, Flag \ a')
Call ==
  CASE Rec.op = "ctor" -> Construct(Rec.fs)
    [] Rec.op = "ext" -> Extend(Rec.fs)
    [] Rec.op = "set" -> SetF(Rec.f, Rec.on = 1)
    [] Rec.op = "add" -> SetF(Rec.f, TRUE)
    [] Rec.op = "sub" -> SetF(Rec.f, FALSE)
    [] Rec.op = "raw" -> Raw(SetOf(Rec.w))
    [] Rec.op = "xch" -> Exchange
    [] Rec.op = "copy" -> Copy
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ Reset
            \/ Rec.op # "reset" /\ Call /\ Seen
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
