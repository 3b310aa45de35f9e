------------------------------ MODULE TaskQueue ------------------------------
(* RunThreadedQueue (datas/multi_thread.hpp): n tasks on at most min(hw, n)      *)
(* workers, handed out in index order.  A caller starts the first tasks, then    *)
(* polls its slots and gives every free slot the next index, and returns when    *)
(* everything ended.                                                             *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES n, hw,          \* the call's arguments (hw: what the machine reports)
          phase,          \* "idle", "run", "done"
          handed,         \* number of indices handed out
          slot,           \* worker slot -> index it was given last, or -1
          started, ended  \* sets of indices whose body began / finished
vars == <<n, hw, phase, handed, slot, started, ended>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Workers == Min(Max(hw, 1), n)

Call(m, h) == /\ phase = "idle"
              /\ n' = m /\ hw' = h /\ phase' = "run" /\ handed' = 0
              /\ slot' = [w \in 1..Min(Max(h, 1), m) |-> -1]
              /\ started' = {} /\ ended' = {}
\* a slot that has no unfinished task takes the next index
Free(w) == slot[w] = -1 \/ slot[w] \in ended
HandOut(w) == /\ phase = "run" /\ handed < n /\ Free(w)
              /\ slot' = [slot EXCEPT ![w] = handed]
              /\ handed' = handed + 1
              /\ UNCHANGED <<n, hw, phase, started, ended>>
\* the body of task i begins, some time after it was handed out
Begin(i) == /\ i < handed /\ i \notin started
            /\ started' = started \cup {i}
            /\ UNCHANGED <<n, hw, phase, handed, slot, ended>>
Finish(i) == /\ i \in started \ ended
             /\ ended' = ended \cup {i}
             /\ UNCHANGED <<n, hw, phase, handed, slot, started>>
Return == /\ phase = "run" /\ ended = 0..(n-1)
          /\ phase' = "done"
          /\ UNCHANGED <<n, hw, handed, slot, started, ended>>

Running == started \ ended
\* ------------------------------------------------------------- properties
TypeOK == handed \in 0..n /\ ended \subseteq started /\ started \subseteq 0..(handed-1)
AtMostWorkers == Cardinality(Running) <= Workers
AllDoneOnReturn == phase = "done" => /\ started = 0..(n-1) /\ ended = 0..(n-1)
OncePerIndex == [][\A i \in started' \ started : i \notin started /\ i \in 0..(n-1)]_vars
\* what an observer of the task bodies can rely on
HandedInOrder == \A i \in started : i < Cardinality(ended) + Workers
=============================================================================
