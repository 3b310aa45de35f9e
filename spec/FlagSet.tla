------------------------------- MODULE FlagSet -------------------------------
(* es::Flags (datas/flags.hpp): a set of flag numbers kept in one word of nb     *)
(* bits.  Two objects, because objects are compared and copied.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nb, a, b                    \* a, b : sets of flag numbers
vars == <<nb, a, b>>
Flag == 0..(nb-1)
TypeOK == a \subseteq Flag /\ b \subseteq Flag
Range(s) == {s[i] : i \in 1..Len(s)}

Construct(fs) == a' = Range(fs) /\ UNCHANGED <<nb, b>>
Extend(fs) == a' = b \cup Range(fs) /\ UNCHANGED <<nb, b>>       \* copy of b plus flags
SetF(f, on) == a' = (IF on THEN a \cup {f} ELSE a \ {f}) /\ UNCHANGED <<nb, b>>
Raw(s) == a' = s /\ UNCHANGED <<nb, b>>
Exchange == a' = b /\ b' = a /\ UNCHANGED nb
Copy == b' = a /\ UNCHANGED <<nb, a>>

\* setting or clearing one flag leaves all others alone
Independent == [][\A f \in Flag : \A on \in BOOLEAN :
     SetF(f, on) => /\ \A g \in Flag \ {f} : (g \in a) <=> (g \in a')
                    /\ (f \in a') <=> on]_vars
=============================================================================
