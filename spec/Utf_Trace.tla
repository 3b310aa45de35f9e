----------------------------- MODULE Utf_Trace -----------------------------
EXTENDS Utf, TraceBase
VARIABLE l
Rec == Trace[l]
Src(s) == IF Rec.mode = "ptr" THEN Ended(s) ELSE s
\* the result of putting decoded text d into other units
Goes(d, Enc(_)) ==
  CASE d.how = "ok" -> Expect("reported", Rec.err, 0) /\ Expect("text", Rec.out, All(Enc, d.cs))
    [] d.how = "bad" -> Expect("reported", Rec.err, 1)
    [] OTHER -> Rec.err = 1 \/ Expect("text up to the cut", Rec.out, All(Enc, d.cs))
To8 == Goes(IF Rec.size = 2 THEN Dec16(Src(Rec.in)) ELSE Dec32(Src(Rec.in)), Enc8)
ToWide == Goes(Dec8(Src(Rec.in)), Enc32)
Same == Expect("reported", Rec.err, 0) /\ Expect("text", Rec.out, Src(Rec.in))
Helps == {<<45, 104>>, <<45, 63>>, <<47, 63>>, <<45, 45, 104, 101, 108, 112>>}
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "reset" -> TRUE [] Rec.op = "to8" -> To8 [] Rec.op = "towide" -> ToWide [] Rec.op = "same" -> Same
              [] Rec.op = "help" -> Expect("help", Rec.is, IF Rec.in \in Helps THEN 1 ELSE 0)
TSpec == TInit /\ [][TNext]_l
=============================================================================
