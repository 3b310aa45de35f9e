----------------------------- MODULE Cursor_Trace -----------------------------
EXTENDS Cursor, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == Init /\ l = 1
Reset == Rec.op = "reset" /\ base' = Rec.base /\ mem' = <<>> /\ res' = NoRes
         /\ cur' = [c \in {"r", "w"} |-> [pos |-> 0, org |-> 0, save |-> 0]]
\* the whole store, as bytes
Dump == Rec.op = "dump" /\ UNCHANGED vars /\ Expect("contents", Rec.mem, mem)
Reopen == Rec.op = "reopen" /\ UNCHANGED vars /\ Expect("ok", Rec.ok, 1)
\* reading beyond the end delivers what is left and reports the end
Past == /\ Rec.op = "past" /\ UNCHANGED vars
        /\ Expect("bytes before end", Rec.r, Part(cur["r"].pos, Size - cur["r"].pos))
        /\ Expect("end reported", Rec.eof, 1)
Call == /\ Rec.op \notin {"reset", "dump", "past", "reopen"}
        /\ Do(Rec)
        /\ Expect("ok", Rec.ok, 1)
        /\ (Rec.op \in {"tell", "size"}) => Expect("returned", <<Rec.n1>>, res')
        /\ (Rec.op = "read") => Expect("bytes read", Rec.r, res')
        /\ LET c == IF Rec.op = "write" THEN "w" ELSE IF Rec.op = "read" THEN "r" ELSE Rec.c
           IN  Expect("position", Rec.tell, cur'[c].pos - cur'[c].org)
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Dump \/ Past \/ Reopen \/ Call)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
