---------------------------- MODULE Riff_Trace ------------------------------
EXTENDS Riff, TraceBase
VARIABLE l
Rec == Trace[l]
WalkR == LET w == Walk(Rec.file, 12) IN
  /\ Expect("chunks", Rec.at, w)
  /\ Expect("names", Rec.ids, [i \in 1..Len(w) |-> IdAt(Rec.file, w[i])])
  /\ Expect("parts of waves", Rec.known, [i \in 1..Len(w) |-> IF IdAt(Rec.file, w[i]) \in Known THEN 1 ELSE 0])
Loops == /\ Expect("where loops are", Rec.at, 44)
         /\ Expect("loops", Rec.out, [i \in 1..Rec.n |-> Fields("loop", SubSeq(Rec.file, 44 + 24 * (i - 1) + 1, 44 + 24 * i))])
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "reset" -> TRUE
              [] Rec.op = "riff" -> Expect("beginning", Rec.out, Begin(Rec.size))
              [] Rec.op = "fmt" -> Expect("format", Rec.out, Fmt(Rec.f))
              [] Rec.op = "calc" -> Expect("bytes of samples", Rec.out, Calc(Rec.file))
              [] Rec.op = "data" -> Expect("data", Rec.out, Nm.data \o Rec.size) /\ Expect("where data is", Rec.at, 8)
              [] Rec.op = "walk" -> WalkR
              [] Rec.op = "loops" -> Loops
              [] Rec.op = "read" -> Expect(<<"numbers of", Rec.kind>>, Rec.out, Fields(Rec.kind, Rec.file)) /\ Expect("size", Rec.size, Total[Rec.kind])
TSpec == TInit /\ [][TNext]_l
=============================================================================
