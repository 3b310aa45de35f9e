---------------------------- MODULE SmallFloat_MC ----------------------------
(* All codes of small formats, one after another.                              *)
EXTENDS SmallFloat
CONSTANTS MaxM, MaxE
VARIABLES t, c
Fmts == {[m |-> m, e |-> e, sg |-> s] : m \in 1..MaxM, e \in 2..MaxE, s \in {0, 1}}
Init == t \in Fmts /\ c = 0
Next == c + 1 \in Codes(t) /\ c' = c + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, c>>
Mag == c % Signed(t)
\* the number a code stands for, in units of the least one above zero
Units == LET E == Mag \div 2^t.m  M == Mag % 2^t.m
         IN  IF E = 0 THEN M ELSE (2^t.m + M) * 2^(E - 1)
F == Decode(t, c)
\* single precision of n units of 2^(1-Bias-m): highest bit to exponent, rest to fraction
Exact == Mag < Inf(t) => IF Units = 0 THEN F[2] = 0 /\ F[3] = 0
                         ELSE LET k == Top(Units)
                              IN  /\ F[2] = 127 + k + 1 - Bias(t) - t.m
                                  /\ F[3] * 2^(IF k > 10 THEN k - 10 ELSE 0) =
                                     (Units - 2^k) * 2^(IF k > 10 THEN 13 ELSE 23 - k)
Special == /\ (Mag = Inf(t)) <=> (F[2] = 255 /\ F[3] = 0)
           /\ (Mag > Inf(t)) <=> IsNaN(F)
           /\ F[1] = IF c >= Signed(t) THEN 1 ELSE 0
\* codes are in the order of their numbers
Monotone == [][(c' % Signed(t)) > 0 => MagLt(F, F')]_<<t, c>>
\* the only code of a number that has one, NaN and a sign without a bit apart
Unique == Mag <= Inf(t) => {d \in Codes(t) : Encodes(t, F, d)} = {c}
Between == Mag < Inf(t) => LET mid == <<F[1], F[2], F[3] + 1>>
           IN {d \in Codes(t) : Encodes(t, mid, d)} = {c, c + 1}
=============================================================================
