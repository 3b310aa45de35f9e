------------------------------ MODULE Elements -------------------------------
(* Handles of objects, which own what they lead to or only borrow it, and lists *)
(* of objects (uni/common.hpp, uni/list.hpp, uni/list_vector.hpp).              *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == [id |-> 0, own |-> FALSE]
\* what handle h, which is given up, takes with it
Dying(h) == IF h.own /\ h.id # 0 THEN {h.id} ELSE {}
Items(s) == {s[i] : i \in 1..Len(s)}
EraseAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* The calls an object of some type may answer: left to the default, the one of
\* its type has been forgotten (1, a logic error), others are not supported (2)
TrackTakes(call) == CASE call = 0 -> {4} [] call = 1 -> {3} [] call = 2 -> {0, 1, 2} [] call = 3 -> {5}
Answer(cls, type, call, over) ==
  IF call \in over THEN 0
  ELSE IF (IF cls = "track" THEN type \in TrackTakes(call) ELSE type = call) THEN 1 ELSE 2
\* values brought back to their range
Resampled(how, lo, hi, v) == [i \in 1..4 |->
  CASE how = 0 -> v[i] [] how = 1 -> v[i] + lo[i] [] how = 2 -> v[i] * lo[i] [] how = 3 -> hi[i] + v[i] * lo[i]]
=============================================================================
