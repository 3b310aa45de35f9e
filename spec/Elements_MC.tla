---------------------------- MODULE Elements_MC ------------------------------
\* Objects come to be in handles or in a store, and are handed on: none is
\* deleted twice, none is lost, and none goes while it is owned.
EXTENDS Elements
CONSTANTS Objects, Handles
VARIABLES h, store, list, dead, made
vars == <<h, store, list, dead, made>>
Init == h = [x \in Handles |-> Nothing] /\ store = {} /\ list = <<>> /\ dead = [o \in Objects |-> 0] /\ made = {}
Die(S) == dead' = [o \in Objects |-> dead[o] + IF o \in S THEN 1 ELSE 0]
Held(o) == \E x \in Handles : h[x].id = o
New(x, o) == o \notin made /\ made' = made \cup {o} /\ Die(Dying(h[x])) /\ h' = [h EXCEPT ![x] = [id |-> o, own |-> TRUE]] /\ UNCHANGED <<store, list>>
Store(o) == o \notin made /\ made' = made \cup {o} /\ store' = store \cup {o} /\ UNCHANGED <<h, list, dead>>
Borrow(x, o) == o \in store \cup Items(list) /\ Die(Dying(h[x])) /\ h' = [h EXCEPT ![x] = [id |-> o, own |-> FALSE]] /\ UNCHANGED <<store, list, made>>
Move(x, y) == x # y /\ Die(Dying(h[x])) /\ h' = [h EXCEPT ![x] = h[y], ![y] = Nothing] /\ UNCHANGED <<store, list, made>>
Drop(x) == h[x].id # 0 /\ Die(Dying(h[x])) /\ h' = [h EXCEPT ![x] = Nothing] /\ UNCHANGED <<store, list, made>>
Unstore(o) == o \in store /\ ~Held(o) /\ Die({o}) /\ store' = store \ {o} /\ UNCHANGED <<h, list, made>>
Push(o) == o \notin made /\ made' = made \cup {o} /\ list' = Append(list, o) /\ UNCHANGED <<h, store, dead>>
Erase(i) == i \in 1..Len(list) /\ ~Held(list[i]) /\ Die({list[i]}) /\ list' = EraseAt(list, i) /\ UNCHANGED <<h, store, made>>
Next == \/ \E x \in Handles : Drop(x) \/ (\E o \in Objects : New(x, o) \/ Borrow(x, o)) \/ \E y \in Handles : Move(x, y)
        \/ \E o \in Objects : Store(o) \/ Unstore(o) \/ Push(o)
        \/ \E i \in 1..Cardinality(Objects) : Erase(i)
Spec == Init /\ [][Next]_vars
Owners(o) == Cardinality({x \in Handles : h[x] = [id |-> o, own |-> TRUE]}) + (IF o \in store THEN 1 ELSE 0)
             + Cardinality({i \in 1..Len(list) : list[i] = o})
OneOwner == \A o \in made : Owners(o) + dead[o] = 1
NoDangling == \A x \in Handles : h[x].id # 0 => dead[h[x].id] = 0
=============================================================================
