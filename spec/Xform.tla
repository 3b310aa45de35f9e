------------------------------- MODULE Xform -------------------------------
\* Transformations: rotation and scale in the first three rows of a matrix, position in the fourth.
\* A matrix is the sequence of its sixteen numbers, row by row, in U-ths. Quaternions <<x, y, z, w>> are in halves, of the tracked length.
EXTENDS Integers, Sequences, FiniteSets
U == 64
At(m, i, j) == m[4 * (i - 1) + j]
Make(f(_, _)) == [k \in 1..16 |-> f(((k - 1) \div 4) + 1, ((k - 1) % 4) + 1)]
Identity == Make(LAMBDA i, j : IF i = j THEN U ELSE 0)
Mul(a, b) == Make(LAMBDA i, j : (At(a, i, 1) * At(b, 1, j) + At(a, i, 2) * At(b, 2, j) + At(a, i, 3) * At(b, 3, j) + At(a, i, 4) * At(b, 4, j)) \div U)
Transposed(m) == Make(LAMBDA i, j : At(m, j, i))
Transposed3(m) == Make(LAMBDA i, j : IF i < 4 /\ j < 4 THEN At(m, j, i) ELSE At(m, i, j))
\* the rotation of a quaternion in rows: q is doubled, and what comes out is in halves of 1/(q.q)-ths unless q is a unit
Dot4(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3] + p[4] * q[4]
\* entries of the rotation matrix for integer quaternion q times q.q
Turn(q, i, j) ==
  LET x == q[1]  y == q[2]  z == q[3]  w == q[4] IN
  CASE i = j -> w * w + 2 * q[i] * q[i] - x * x - y * y - z * z
    [] <<i, j>> = <<1, 2>> -> 2 * (x * y - z * w) [] <<i, j>> = <<2, 1>> -> 2 * (x * y + z * w)
    [] <<i, j>> = <<1, 3>> -> 2 * (x * z + y * w) [] <<i, j>> = <<3, 1>> -> 2 * (x * z - y * w)
    [] <<i, j>> = <<2, 3>> -> 2 * (y * z - x * w) [] <<i, j>> = <<3, 2>> -> 2 * (y * z + x * w)
\* what a quaternion, in halves and of any length, is made into (the same as Turn for units)
FromQuat(h, last) ==
  LET p(i, j) == h[i] * h[j]  o(v) == (U \div 2) * v IN
  Make(LAMBDA i, j :
    IF i = 4 THEN last[j] ELSE IF j = 4 THEN 0
    ELSE IF i = j THEN U - (U \div 2) * (p(1, 1) + p(2, 2) + p(3, 3) - p(i, i))
    ELSE IF <<i, j>> \in {<<1, 2>>, <<2, 3>>, <<3, 1>>} THEN o(p(i, j) - p(6 - i - j, 4))
    ELSE o(p(i, j) + p(6 - i - j, 4)))
Composed(pos, h, scale) == LET r == FromQuat(h, pos) IN Make(LAMBDA i, j : IF i = 4 THEN pos[j] ELSE (At(r, i, j) * scale[i]) \div U)
Moved(m, p) == <<(p[1] * At(m, 1, 1) + p[2] * At(m, 2, 1) + p[3] * At(m, 3, 1)) \div U, (p[1] * At(m, 1, 2) + p[2] * At(m, 2, 2) + p[3] * At(m, 3, 2)) \div U,
                 (p[1] * At(m, 1, 3) + p[2] * At(m, 2, 3) + p[3] * At(m, 3, 3)) \div U, U>>
Det3(m) == LET d(i, j, k) == At(m, 1, i) * At(m, 2, j) * At(m, 3, k) IN d(1, 2, 3) + d(2, 3, 1) + d(3, 1, 2) - d(3, 2, 1) - d(2, 1, 3) - d(1, 3, 2)
\* the product of quaternions (in halves)
QMul(p, q) == LET h(v) == v \div 2 IN
  <<h(p[4] * q[1] + p[1] * q[4] + p[2] * q[3] - p[3] * q[2]), h(p[4] * q[2] - p[1] * q[3] + p[2] * q[4] + p[3] * q[1]),
    h(p[4] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[4]), h(p[4] * q[4] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3])>>
Conj(q) == <<-q[1], -q[2], -q[3], q[4]>>
\* back from what a matrix of rotation, scale and position does: undone rotation and scale; the position
\* is taken away before them (rows times matrix)
Undoes(inv, m) == \A i, j \in 1..3 : (At(inv, i, 1) * At(m, 1, j) + At(inv, i, 2) * At(m, 2, j) + At(inv, i, 3) * At(m, 3, j)) = (IF i = j THEN U * U ELSE 0)
Back(inv, m) == <<-(At(m, 4, 1) * At(inv, 1, 1) + At(m, 4, 2) * At(inv, 2, 1) + At(m, 4, 3) * At(inv, 3, 1)) \div U,
                  -(At(m, 4, 1) * At(inv, 1, 2) + At(m, 4, 2) * At(inv, 2, 2) + At(m, 4, 3) * At(inv, 3, 2)) \div U,
                  -(At(m, 4, 1) * At(inv, 1, 3) + At(m, 4, 2) * At(inv, 2, 3) + At(m, 4, 3) * At(inv, 3, 3)) \div U, U>>
\* KNOWN FINDING: the code takes columns for rows there
BackFound(inv, m) == [j \in 1..4 |-> IF j = 4 THEN U ELSE -(At(m, 4, 1) * At(inv, j, 1) + At(m, 4, 2) * At(inv, j, 2) + At(m, 4, 3) * At(inv, j, 3)) \div U]
Abs(v) == IF v < 0 THEN -v ELSE v
Swapped(b) == [k \in 1..64 |-> b[((k - 1) \div 4) * 4 + 4 - ((k - 1) % 4)]]
=============================================================================
