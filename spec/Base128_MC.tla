----------------------------- MODULE Base128_MC -----------------------------
EXTENDS Base128
CONSTANT MaxPending
Next == \/ \E sg \in BOOLEAN, v \in Word : Len(pending) < MaxPending /\ WriteV(sg, v)
        \/ ReadV
Spec == Init /\ [][Next]_vars
=============================================================================
