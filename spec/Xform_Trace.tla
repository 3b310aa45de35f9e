---------------------------- MODULE Xform_Trace ----------------------------
EXTENDS Xform, TraceBase
VARIABLES l
Rec == Trace[l]
Zero == <<0, 0, 0, U>>
InFloat(what, got, want, d) == Holds(<<what, got, want>>, Abs(got - want) <= d)
\* ten-thousandths of what is told exactly as num / den
Close(what, got, num, den) == Holds(<<what, got, num, den>>, Abs(got) < 200000 /\ Abs(got * den - 10000 * num) <= 2 * den)
\* the quaternion told in ten-thousandths is one of the rotation of q
SameTurn(what, got, q) ==
  LET n2 == Dot4(q, q)  big == CHOOSE i \in 1..4 : \A j \in 1..4 : Abs(q[i]) >= Abs(q[j]) IN
  Holds(<<what, got, q>>,
        /\ \A i \in 1..4 : Abs(got[i]) <= 10001
        /\ \A i \in 1..4 : Abs(got[i] * q[big] - got[big] * q[i]) <= 2 * (Abs(q[big]) + Abs(q[i])) + 1
        /\ Abs(got[1] * got[1] + got[2] * got[2] + got[3] * got[3] + got[4] * got[4] - 100000000) <= 60000)
Products == LET w == Mul(Rec.a, IF Rec.how \in {"aa", "a*=a"} THEN Rec.a ELSE Rec.b)
            IN  Expect("product", Rec.out, w) /\ (Rec.how \in {"a*=b", "a*=a"} => Expect("itself", Rec.self, 1))
                /\ (Rec.how \in {"ab", "aa"} => Expect("operands", <<Rec.a2, Rec.b2>>, <<Rec.a, Rec.b>>))
ThirdW == \A i \in 1..3 : At(Rec.a, i, 4) = 0
Unary == /\ Expect("transposed", Rec.full, Transposed(Rec.a))
         /\ (ThirdW => Expect("turned back", Rec.part, Transposed3(Rec.a)))
         /\ Expect("rows", Rec.rows, Rec.a) /\ Expect("made of three", Rec.three, [k \in 1..16 |-> IF k > 12 THEN 0 ELSE Rec.a[k]])
         /\ Expect("identity", Rec.one, Identity) /\ Expect("made identity", Rec.made, Identity)
         /\ Expect("bytes", Rec.bytes, Swapped(Rec.was))
Point == Expect("point", Rec.out, Moved(Rec.a, Rec.p))
Quat == /\ Expect("from quaternion", Rec.out, FromQuat(Rec.q, Zero)) /\ Expect("into a matrix", Rec.into, FromQuat(Rec.q, [j \in 1..4 |-> At(Rec.a, 4, j)]))
        /\ Expect("composed", Rec.comp, Composed([j \in 1..4 |-> At(Rec.a, 4, j)], Rec.q, Rec.s))
\* rotations of whole-numbered quaternions, normalized
Turns == LET n2 == Dot4(Rec.q, Rec.q) IN
  /\ \A i \in 1..3 : \A j \in 1..3 : Close(<<"rotation", i, j>>, At(Rec.m, i, j), Turn(Rec.q, i, j), n2)
  /\ SameTurn("quaternion", Rec.out, Rec.q)
\* scales in quarters
Decomposed ==
  LET n2 == Dot4(Rec.q, Rec.q)
      neg == Rec.s[1] * Rec.s[2] * Rec.s[3] < 0
      \* what turns is what is left without the scale, of which either all or no parts mirror
      sgn(i) == IF (Rec.s[i] < 0) = neg THEN 1 ELSE -1
      same == \A i \in 1..3 : sgn(i) = 1
  IN  /\ \A i \in 1..3 : InFloat(<<"scale", i>>, Rec.scale[i], (IF neg THEN -2500 ELSE 2500) * Abs(Rec.s[i]), 2)
      /\ Expect("position", Rec.pos, Rec.p)
      /\ (same => SameTurn("rotation", Rec.rot, Rec.q))
      /\ Holds(<<"unit", Rec.rot>>, /\ \A i \in 1..4 : Abs(Rec.rot[i]) <= 10001
                                   /\ Abs(Rec.rot[1] * Rec.rot[1] + Rec.rot[2] * Rec.rot[2] + Rec.rot[3] * Rec.rot[3] + Rec.rot[4] * Rec.rot[4] - 100000000) <= 60000)
      /\ \A i, j \in 1..3 : Holds(<<"composed again", i, j, At(Rec.again, i, j)>>,
           Abs(At(Rec.again, i, j)) < 200000 /\ Abs(At(Rec.again, i, j) * n2 - 2500 * Rec.s[i] * Turn(Rec.q, i, j)) <= 8 * n2)
      /\ Expect("position again", [j \in 1..4 |-> At(Rec.again, 4, j)], [j \in 1..4 |-> 10000 * Rec.p[j]])
\* exactly: rotations onto axes, scales of powers of two
Inverse == LET t == [j \in 1..4 |-> At(Rec.out, 4, j)] IN
  /\ Holds(<<"undoes", Rec.out, Rec.a>>, Undoes(Rec.out, Rec.a))
  /\ Holds(<<"position back", t, Back(Rec.out, Rec.a)>>, t = Back(Rec.out, Rec.a) \/ t = BackFound(Rec.out, Rec.a))
  /\ Expect("last column", [i \in 1..3 |-> At(Rec.out, i, 4)], <<0, 0, 0>>)
  /\ Expect("operand", Rec.a2, Rec.a)
InverseOf ==             \* scales in quarters, any rotation; in ten-thousandths
  LET n2 == Dot4(Rec.q, Rec.q)
      inv(i, j) == At(Rec.out, i, j)
      t(j) == -(Rec.p[1] * inv(1, j) + Rec.p[2] * inv(2, j) + Rec.p[3] * inv(3, j))
      f(j) == -(Rec.p[1] * inv(j, 1) + Rec.p[2] * inv(j, 2) + Rec.p[3] * inv(j, 3))
      near(g(_)) == \A j \in 1..3 : Abs(At(Rec.out, 4, j) - g(j)) <= 2 * (Abs(Rec.p[1]) + Abs(Rec.p[2]) + Abs(Rec.p[3])) + 4
  IN  /\ \A i, j \in 1..3 : IF Rec.s[j] = 0 THEN Expect("nothing", inv(i, j), 0)
                            ELSE Holds(<<"undone", i, j, inv(i, j)>>, Abs(inv(i, j)) < 100000
                                       /\ Abs(inv(i, j) * n2 * Rec.s[j] - 40000 * Turn(Rec.q, j, i)) <= 2 * n2 * Abs(Rec.s[j]))
      /\ Holds(<<"position back", Rec.out>>, near(t) \/ near(f)) /\ Expect("last", At(Rec.out, 4, 4), 10000)
\* turned onto axes, by powers of two from thousandths to thousands, in ten-thousandths of the scales
Wide == LET odd == {<<i, j>> \in (1..3) \X (1..3) : i < j /\ Rec.perm[i] > Rec.perm[j]}
            neg == (Rec.sg[1] * Rec.sg[2] * Rec.sg[3]) * (IF Cardinality(odd) % 2 = 1 THEN -1 ELSE 1) < 0
        IN  /\ \A i, j \in 1..3 : InFloat(<<"undone", i, j>>, At(Rec.out, i, j), IF Rec.perm[j] = i - 1 THEN 10000 * Rec.sg[j] ELSE 0, 10)
            /\ \A i \in 1..3 : InFloat(<<"scale", i>>, Rec.scale[i], IF neg THEN -10000 ELSE 10000, 10)
            /\ \A i, j \in 1..3 : InFloat(<<"composed again", i, j>>, At(Rec.again, i, j), IF Rec.perm[i] = j - 1 THEN 10000 * Rec.sg[i] ELSE 0, 20)
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "mul" -> Products [] Rec.op = "un" -> Unary [] Rec.op = "point" -> Point [] Rec.op = "quat" -> Quat [] Rec.op = "turn" -> Turns
              [] Rec.op = "dec" -> Decomposed [] Rec.op = "inv" -> Inverse [] Rec.op = "invq" -> InverseOf [] Rec.op = "wide" -> Wide [] OTHER -> TRUE
TSpec == TInit /\ [][TNext]_<<l>>
=============================================================================
