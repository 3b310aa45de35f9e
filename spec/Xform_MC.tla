------------------------------ MODULE Xform_MC ------------------------------
\* A thing is turned, scaled and moved, step by step; what it went through is undone at the end
EXTENDS Xform
CONSTANTS Steps, Whole                        \* only rotations onto axes of half turns and quarters, or all
VARIABLES m, q, sc, pos, n
vars == <<m, q, sc, pos, n>>
\* unit quaternions of 24 (in halves): the axes, and all halves
Units == {h \in [1..4 -> {-2, 0, 2}] : Dot4(h, h) = 4} \cup (IF Whole THEN [1..4 -> {-1, 1}] ELSE {<<1, 1, 1, 1>>, <<1, -1, 1, 1>>})
Scales == {<<U, U, U>>, <<2 * U, U, U \div 2>>, <<U, 4 * U, U>>, <<U \div 4, U \div 4, U \div 4>>, <<-U, -2 * U, -U>>}
Poss == {<<0, 0, 0, U>>, <<U, -3 * U, 5 * U, U>>}
Init == m = Identity /\ q = <<0, 0, 0, 2>> /\ sc = <<U, U, U>> /\ pos = <<0, 0, 0, U>> /\ n = 0
Compose == \E h \in Units, s \in Scales, p \in Poss : m' = Composed(p, h, s) /\ q' = h /\ sc' = s /\ pos' = p
Next == \/ n = 0 /\ n' = 1 /\ Compose
        \/ n \in 1..Steps /\ n' = n + 1 /\ sc = <<U, U, U>> /\ \E h \in Units, p \in Poss :
             m' = Mul(m, FromQuat(h, p)) /\ q' = QMul(q, h) /\ pos' = [j \in 1..4 |-> Moved(FromQuat(h, p), pos)[j] + (IF j < 4 THEN p[j] ELSE 0)] /\ sc' = sc
Spec == Init /\ [][Next]_vars
Chain == n > 1 => \A i, j \in 1..3 : At(m, i, j) = At(FromQuat(q, pos), i, j)      \* rotations and their quaternions multiply alike
Place == \A j \in 1..4 : At(m, 4, j) = pos[j]
Same == \A i, j \in 1..3 : 4 * At(FromQuat(q, pos), i, j) = U * Turn(q, i, j)
Lengths == \A i \in 1..3 : At(m, i, 1) * At(m, i, 1) + At(m, i, 2) * At(m, i, 2) + At(m, i, 3) * At(m, i, 3) = sc[i] * sc[i]
Hand == (Det3(m) < 0) <=> (sc[1] < 0)
Both == Transposed(Transposed(m)) = m /\ Transposed3(Transposed3(m)) = m /\ Mul(m, Identity) = m /\ Mul(Identity, m) = m
Products == \A h \in Units : LET r == FromQuat(h, <<0, 0, 0, U>>) IN Transposed(Mul(m, r)) = Mul(Transposed(r), Transposed(m))
\* and the whole is undone
Inverse(a) == LET i3(i, j) == LET s == (At(a, j, 1) * At(a, j, 1) + At(a, j, 2) * At(a, j, 2) + At(a, j, 3) * At(a, j, 3)) \div U IN (At(a, j, i) * U) \div s
                  inv == Make(LAMBDA i, j : IF i < 4 /\ j < 4 THEN i3(i, j) ELSE 0)
                  t == Back(inv, a)
              IN  Make(LAMBDA i, j : IF i < 4 THEN At(inv, i, j) ELSE t[j])
Undone == LET inv == Inverse(m) IN Undoes(inv, m) /\ Mul(m, inv) = Identity /\ Mul(inv, m) = Identity
=============================================================================
