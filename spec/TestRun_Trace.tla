--------------------------- MODULE TestRun_Trace ----------------------------
EXTENDS TestRun, TraceBase
VARIABLES l, src
Run == LET w == Whole(At(src.prog, Trace[l].env, src.file)) IN
  /\ Expect("said", Trace[l].said, w.said)
  /\ Expect("result", Trace[l].result, w.failed)
Names == /\ Expect("number of members", Trace[l].count, Len(Trace[l].want))
         /\ Expect("members", Trace[l].members, Trace[l].want)
         /\ Expect("set", Trace[l].sum, (Len(Trace[l].want) * (Len(Trace[l].want) + 1)) \div 2)
         /\ Expect("names", Trace[l].enums, Trace[l].want)
TInit == l = 1 /\ src = <<>> /\ prog = 0 /\ ci = 0 /\ ki = 0 /\ failed = 0 /\ said = <<>> /\ end = FALSE
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
         /\ Expect("ok", Trace[l].ok, 1)
         /\ src' = IF Trace[l].op = "reset" THEN [prog |-> Trace[l].prog, file |-> Trace[l].file] ELSE src
         /\ CASE Trace[l].op = "reset" -> TRUE
              [] Trace[l].op = "run" -> Run
              [] Trace[l].op = "names" -> Names
TSpec == TInit /\ [][TNext]_<<l, src>>
=============================================================================
