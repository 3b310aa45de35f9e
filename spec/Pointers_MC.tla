---------------------------- MODULE Pointers_MC -----------------------------
\* Objects of a file lead to each other by offsets, some in circles; threads
\* walk over them from any place, making pointers of what they come across.
EXTENDS Pointers, FiniteSets
CONSTANTS Slots, Threads
VARIABLES file, mem, used, todo, made
vars == <<file, mem, used, todo, made>>
Root == 100
Init == /\ file \in [Slots -> {0} \cup Slots]                  \* the slot of the object led to, or none
        /\ mem = [s \in Slots |-> [k |-> "raw", v |-> file[s]]]
        /\ used = [t \in Threads |-> {}] /\ todo = [t \in Threads |-> {}] /\ made = [s \in Slots |-> 0]
\* a thread begins at slots no other thread has to do with
Reach(S) == LET RECURSIVE R(_, _)
                R(X, n) == IF n = 0 THEN X ELSE R((X \cup {file[s] : s \in X}) \ {0}, n - 1)
            IN  R(S, Cardinality(Slots))
Begin(t, s) == /\ s \notin Reach(UNION {todo[u] \cup used[u] : u \in (Threads \ {t})})
               /\ Reach({s}) \cap UNION {Reach(todo[u] \cup used[u]) : u \in (Threads \ {t})} = {}
               /\ todo' = [todo EXCEPT ![t] = @ \cup {s}] /\ UNCHANGED <<file, mem, used, made>>
Visit(t, s) == /\ s \in todo[t]
               /\ LET r == Made(mem, used[t], s, Root, FALSE)
                  IN  /\ mem' = r[2] /\ used' = [used EXCEPT ![t] = r[3]]
                      /\ made' = [made EXCEPT ![s] = IF r[1] THEN @ + 1 ELSE @]
                      /\ todo' = [todo EXCEPT ![t] = (@ \ {s}) \cup (IF r[1] THEN {r[2][s].v - Root} ELSE {})]
               /\ UNCHANGED file
Next == \E t \in Threads, s \in Slots : Begin(t, s) \/ Visit(t, s)
Spec == Init /\ [][Next]_vars
Once == \A s \in Slots : made[s] <= 1
Right == \A s \in Slots : IF made[s] = 1 THEN mem[s] = [k |-> "at", v |-> Root + file[s]] ELSE mem[s] = [k |-> "raw", v |-> file[s]]
\* when nothing is left to do, all that can be reached are pointers
Done == \A t \in Threads : todo[t] = {} => \A s \in Reach(used[t]) : s \in used[t] /\ (file[s] # 0 => mem[s].k = "at")
=============================================================================
