------------------------------- MODULE Swap_MC -------------------------------
(* All types of two levels over scalars of 1, 2 and 4 bytes, every byte of a    *)
(* value different, swapped up to four times in both ways.                      *)
EXTENDS Swap, TLC
CONSTANT Deep
VARIABLES first, times
Sc == {[k |-> "s", n |-> n] : n \in {1, 2, 4}} \cup {[k |-> "x", n |-> 1]}
L1 == Sc \cup {[k |-> "a", n |-> n, t |-> t] : n \in 1..2, t \in Sc}
         \cup {[k |-> k, ts |-> <<t, u>>] : k \in {"c", "d"}, t \in Sc, u \in Sc}
L2 == L1 \cup {[k |-> "a", n |-> 2, t |-> t] : t \in L1}
         \cup {[k |-> k, ts |-> <<t, u>>] : k \in {"c", "d"}, t \in L1, u \in (IF Deep THEN L1 ELSE Sc)}
Init == /\ type \in L2 /\ mem = [i \in 1..Size(type) |-> i] /\ log = <<>>
        /\ first = mem /\ times = 0
Next == /\ times < 4 /\ times' = times + 1 /\ UNCHANGED first
        /\ \E w \in BOOLEAN : DoSwap(w)
Spec == Init /\ [][Next]_<<vars, first, times>>
\* twice is never; once moves no byte out of its scalar, and reverses it
Involution == times % 2 = 0 => mem = first
Permutes == {mem[i] : i \in 1..Len(mem)} = {first[i] : i \in 1..Len(first)}
Single == times = 1 /\ type.k = "s" => mem = Reverse(first)
Told == Len(log) = times * Askers(type)
=============================================================================
