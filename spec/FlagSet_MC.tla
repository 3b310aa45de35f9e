------------------------------ MODULE FlagSet_MC ------------------------------
EXTENDS FlagSet
Init == nb = 5 /\ a = {} /\ b = {}
Next == \/ \E f \in Flag, on \in BOOLEAN : SetF(f, on)
        \/ \E f, g \in Flag : Construct(<<f, g>>) \/ Extend(<<f>>)
        \/ \E s \in SUBSET Flag : Raw(s)
        \/ Exchange \/ Copy
Spec == Init /\ [][Next]_vars
=============================================================================
