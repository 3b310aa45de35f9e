------------------------------- MODULE Vec_MC -------------------------------
\* Vectors go through operations one after another
EXTENDS Vec
CONSTANTS T, N
VARIABLES a, b, r, op
vars == <<a, b, r, op>>
Vals == CASE T = "i8" -> (IF N = 3 THEN {-128, -1, 0, 5, 127} ELSE {-128, -127, -3, -1, 0, 1, 2, 85, 126, 127}) [] T = "u8" -> {0, 1, 2, 15, 127, 128, 129, 254, 255}
          [] T = "i16" -> {-20000, -2, 0, 1, 5, 300, 30000} [] T = "u16" -> {0, 1, 3, 255, 32767} [] OTHER -> {-100, -1, 0, 1000}
Vecs == [1..N -> Vals]
Ops == {"add", "sub", "mul", "and", "or", "xor", "not"}
Init == a = Splat(N, 0) /\ b = a /\ r = a /\ op = "start"
Next == \/ op = "start" /\ op' = "left" /\ a' \in Vecs /\ r' = a' /\ UNCHANGED b
        \/ op = "left" /\ op' = "none" /\ b' \in Vecs /\ UNCHANGED <<a, r>>
        \/ op = "none" /\ op' \in Ops /\ r' = Bin(T, op', a, b) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Within == \A i \in 1..N : Wrap(T, r[i]) = r[i]
\* operations undo and mirror one another
Laws ==
  /\ op = "add" => Bin(T, "sub", r, b) = a /\ r = Bin(T, "add", b, a)
  /\ op = "sub" => Bin(T, "add", r, b) = a
  /\ op = "mul" => r = Bin(T, "mul", b, a)
  /\ op = "and" => Bin(T, "or", r, a) = a
  /\ op = "or" => Bin(T, "and", r, a) = a
  /\ op = "xor" => Bin(T, "xor", r, b) = a
  /\ op = "not" => Bin(T, "add", r, a) = Splat(N, Wrap(T, -1))
Measures == op = "none" =>
  /\ Dot(T, a, b) = Dot(T, b, a)
  /\ (N = 3 => Dot(T, Cross(T, a, b), a) = 0 /\ Cross(T, a, a) = <<0, 0, 0>>)
  /\ (Near(a, b, 0) <=> a = b) /\ (Sym(a) <=> Cardinality({a[i] : i \in 1..N}) = 1)
Shifts == op = "none" => \A i \in 1..N, s \in 0..7 :
  /\ Right(T, a[i], s) = IF s = 0 THEN a[i] ELSE Right(T, Right(T, a[i], 1), s - 1)
  /\ Left(T, a[i], s) = IF s = 0 THEN a[i] ELSE Left(T, Left(T, a[i], 1), s - 1)
Conv == op = "none" => \A i \in 1..N, u \in {"i8", "u8", "i16", "u16", "i32", "u32"} : To(u, T, To(T, u, a[i])) = a[i] \/ Bits(u) < Bits(T)
=============================================================================
