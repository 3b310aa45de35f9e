--------------------------- MODULE TaskQueue_Trace ---------------------------
(* Recorded calls: begin/end of every task body and the return, in the order of  *)
(* one log shared by all threads.  Handing out is not visible: the hidden steps   *)
(* are folded into Begin (a slot must have been free for it).                     *)
EXTENDS TaskQueue, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == /\ n = 0 /\ hw = 0 /\ phase = "done" /\ handed = 0 /\ slot = <<>>
         /\ started = {} /\ ended = {} /\ l = 1
TCall == /\ Rec.op = "call" /\ Holds("previous call returned", phase = "done")
         /\ n' = Rec.n /\ hw' = Rec.hw /\ phase' = "run" /\ handed' = Rec.n
         /\ slot' = <<>> /\ started' = {} /\ ended' = {}
TBegin == /\ Rec.op = "begin" /\ Holds("begins during the call", phase = "run")
          /\ Holds("index in range and not run before", Rec.i \in 0..(n-1) /\ Rec.i \notin started)
          /\ Begin(Rec.i)
          /\ Holds("no more than the workers at once", Cardinality(started' \ ended) <= Workers)
          /\ Holds("handed out in order", Rec.i < Cardinality(ended) + Workers)
TFinish == Rec.op = "end" /\ Holds("ends during the call", phase = "run") /\ Finish(Rec.i)
TReturn == /\ Rec.op = "return"
           /\ Holds("every task ended", ended = 0..(n-1))
           /\ Return
\* the driver gave up waiting for a task that has to be running by now
Stall == Rec.op = "stall" /\ Holds("a free worker takes the next task", FALSE) /\ UNCHANGED vars
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TCall \/ TBegin \/ TFinish \/ TReturn \/ Stall)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
