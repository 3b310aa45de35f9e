----------------------------- MODULE Swap_Trace -----------------------------
EXTENDS Swap, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ type = [k |-> "x", n |-> 0] /\ mem = <<>> /\ log = <<>>
Call == CASE Rec.op = "reset" -> Set([k |-> "x", n |-> 0], <<>>)
          [] Rec.op = "set" -> Expect("size", Rec.size, Size(Rec.t)) /\ Set(Rec.t, Rec.m)
          [] Rec.op = "swap" -> DoSwap(Rec.way)
          [] Rec.op = "as" -> SwapAs(Rec.n)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ Call
         /\ Expect("bytes", Rec.mem, mem') /\ Expect("ways told", Rec.log, log')
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
