---------------------------- MODULE BitFields_MC ----------------------------
EXTENDS BitFields
CONSTANT NB
Layouts == UNION {[1..k -> 1..NB] : k \in 1..4}
Good == {L \in Layouts : Total(L) <= NB}
Word == [0..(NB-1) -> {0, 1}]
Init == lay \in Good /\ nb = NB /\ val \in Word
Next == \/ \E o \in BOOLEAN : Swap(o)
        \/ \E i \in 1..Len(lay) : Set(i, [b \in 0..(NB-1) |-> 1]) \/ Set(i, [b \in 0..(NB-1) |-> 0])
Spec == Init /\ [][Next]_vars
=============================================================================
