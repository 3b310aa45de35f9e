----------------------------- MODULE Printer_Trace -----------------------------
(* Recorded sessions: ten sinks and eight threads at most.                        *)
EXTENDS Printer, TraceBase
VARIABLE l
Rec == Trace[l]
NoM == [busy |-> FALSE, m |-> [text |-> "", type |-> "MSG"], plain |-> 0, need |-> {}, got |-> {}]
TInit == /\ threads = [t \in 1..8 |-> NoM]
         /\ sinks = [s \in 1..6 |-> [st |-> "out", color |-> FALSE]]
         /\ deliv = [s \in 1..6 |-> Idle] /\ ink = [s \in 1..6 |-> "none"]
         /\ order = <<>> /\ last = [s \in 1..6 |-> 0] /\ count = [t \in 1..8 |-> 0]
         /\ l = 1
Reset == /\ threads' = [t \in 1..8 |-> NoM]
         /\ sinks' = [s \in 1..6 |-> [st |-> "out", color |-> FALSE]]
         /\ deliv' = [s \in 1..6 |-> Idle] /\ ink' = [s \in 1..6 |-> "none"]
         /\ order' = <<>> /\ last' = [s \in 1..6 |-> 0] /\ count' = [t \in 1..8 |-> 0]
Prefix(type) == CASE type = "WRN" -> "WARNING: " [] type = "ERR" -> "ERROR: " [] OTHER -> ""
TBegin == LET id == IF Rec.tid = "" THEN "" ELSE "Thread[0x" \o Rec.tid \o "] "
          IN Begin(Rec.t, [text |-> id \o Prefix(Rec.type) \o Rec.text \o (IF Rec.nl = 1 THEN "\n" ELSE ""),
                           type |-> Rec.type], Len(id))
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ Rec.op = "reset" /\ Reset
            \/ Rec.op = "begin" /\ TBegin
            \/ Rec.op = "end" /\ End(Rec.t)
            \/ Rec.op = "chunk" /\ Rec.text # "" /\ \E t \in 1..8 : Receive(Rec.s, t, Rec.text)
            \/ Rec.op = "chunk" /\ Rec.text = "" /\ UNCHANGED pvars
            \/ Rec.op = "ink" /\ Ink(Rec.s, Rec.text)
            \/ Rec.op = "addb" /\ AddBegin(Rec.s, Rec.t = 1)
            \/ Rec.op = "adde" /\ AddEnd(Rec.s)
            \/ Rec.op = "quiet" /\ Quiet
TSpec == TInit /\ [][TNext]_<<pvars, l>>
=============================================================================
