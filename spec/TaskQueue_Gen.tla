---------------------------- MODULE TaskQueue_Gen ----------------------------
(* Schedules: in which order the running tasks are allowed to end.               *)
EXTENDS TaskQueue, TLC, Json
CONSTANTS MaxN, MaxHW
VARIABLE hist
Init == /\ n \in 0..MaxN /\ hw \in 0..MaxHW /\ hist = <<>>
        /\ phase = "run" /\ handed = Workers /\ started = 0..(handed-1) /\ ended = {}
        /\ slot = [w \in 1..Workers |-> w - 1]
\* the scheduler ends one running task; its slot is refilled at once
Step == \E i \in Running :
          /\ ended' = ended \cup {i}
          /\ LET w == CHOOSE w \in 1..Workers : slot[w] = i
             IN IF handed < n
                THEN slot' = [slot EXCEPT ![w] = handed] /\ handed' = handed + 1 /\ started' = started \cup {handed}
                ELSE UNCHANGED <<slot, handed, started>>
          /\ hist' = Append(hist, i)
          /\ UNCHANGED <<n, hw, phase>>
Spec == Init /\ [][Step]_<<vars, hist>>
Emit == ended = 0..(n-1) => PrintT("PROG " \o ToJson([n |-> n, hw |-> hw, ends |-> hist]))
Sane == AtMostWorkers /\ HandedInOrder
=============================================================================
