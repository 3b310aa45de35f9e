----------------------------- MODULE Blocks_MC -----------------------------
\* Blocks drawn one after another into an image; each pixel comes out of its own block
EXTENDS Blocks
CONSTANTS W, H, Ends                        \* blocks, and first and second values
VARIABLES a, b, codes, owner, n
vars == <<a, b, codes, owner, n>>
\* codes of three bits put into six bytes
RECURSIVE Sum(_, _)
Sum(f, k) == IF k < 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Put(c) == [j \in 1..6 |-> Sum([i \in 0..7 |-> LET bit == (j - 1) * 8 + i IN ((c[bit \div 3] \div Pow(bit % 3)) % 2) * Pow(i)], 7)]
Data == <<a, b>> \o Put(codes)
Some == {[p \in 0..15 |-> p % 8], [p \in 0..15 |-> (p * 5 + 3) % 8], [p \in 0..15 |-> 7], [p \in 0..15 |-> IF p = 5 THEN 6 ELSE 1]}
Init == a = 0 /\ b = 0 /\ codes = [p \in 0..15 |-> 0] /\ owner = [k \in 0..(16 * W * H - 1) |-> 0] /\ n = 0
Next == /\ n < W * H /\ n' = n + 1 /\ a' \in Ends /\ b' \in Ends /\ codes' \in Some
        /\ owner' = [k \in DOMAIN owner |-> IF Where(W, n % W, n \div W, k) >= 0 THEN owner[k] + n' ELSE owner[k]]
Spec == Init /\ [][Next]_vars
Read == n > 0 => \A p \in 0..15 : Step(Data, 0, p) = codes[p]
Between == \A k \in 0..7 : LET v == Ramp(a, b, k) IN (k > 5 /\ a <= b) \/ v \in (IF a < b THEN a..b ELSE b..a)
Ordered == a > b => \A k \in 2..6 : Ramp(a, b, k) >= Ramp(a, b, k + 1)
\* every pixel of the blocks drawn belongs to one of them, and no other is touched
Own == \A k \in DOMAIN owner : owner[k] = 0 \/ \E i \in 1..n : owner[k] = i /\ Where(W, (i - 1) % W, (i - 1) \div W, k) >= 0
Once == n > 0 => Cardinality({k \in DOMAIN owner : owner[k] = n}) = 16 /\ \A p \in 0..15 : Where(W, (n - 1) % W, (n - 1) \div W, At(W, (n - 1) % W, (n - 1) \div W, p)) = p
=============================================================================
