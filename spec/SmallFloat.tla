----------------------------- MODULE SmallFloat -----------------------------
(* Small floating point numbers of m mantissa and e exponent bits, with a sign  *)
(* bit when sg = 1 (datas/float.hpp), and how they convert from and to numbers  *)
(* of single precision, which are triples <<sign, exponent field, fraction>>.   *)
EXTENDS Integers, Sequences
\* fmt: [m, e, sg]
Bias(t) == 2^(t.e - 1) - 1
Inf(t) == (2^t.e - 1) * 2^t.m                       \* code of infinity
Signed(t) == 2^(t.e + t.m)                          \* the sign bit
Codes(t) == 0..(2^(t.e + t.m + t.sg) - 1)
RECURSIVE Top(_)                                     \* place of the highest bit
Top(n) == IF n <= 1 THEN 0 ELSE 1 + Top(n \div 2)

Decode(t, c) ==
  LET s == c \div Signed(t)
      mag == c % Signed(t)
      E == mag \div 2^t.m
      M == mag % 2^t.m
  IN  IF E = 2^t.e - 1 THEN <<s, 255, M * 2^(23 - t.m)>>
      ELSE IF E > 0 THEN <<s, E - Bias(t) + 127, M * 2^(23 - t.m)>>
      ELSE IF M = 0 THEN <<s, 0, 0>>
      ELSE LET k == Top(M) IN <<s, 128 + k - Bias(t) - t.m, (M - 2^k) * 2^(23 - k)>>
IsNaN(f) == f[2] = 255 /\ f[3] # 0
\* order of what the sign is put to
MagLe(f, g) == f[2] < g[2] \/ (f[2] = g[2] /\ f[3] <= g[3])
MagLt(f, g) == MagLe(f, g) /\ ~MagLe(g, f)

\* what a decoded code may look like: NaN is any NaN
Decodes(t, c, f) == IF IsNaN(Decode(t, c)) THEN IsNaN(f) ELSE f = Decode(t, c)
\* c is a code for f: the same number, or one of the two next to it
Encodes(t, f, c) ==
  /\ c \in Codes(t)
  /\ LET mag == c % Signed(t)
         d == Decode(t, mag)
     IN  IF IsNaN(f) THEN mag > Inf(t)
         ELSE /\ mag <= Inf(t)
              /\ (t.sg = 1 => c \div Signed(t) = f[1])
              /\ \/ d[2] = f[2] /\ d[3] = f[3]
                 \/ mag < Inf(t) /\ MagLt(d, f) /\ MagLt(f, Decode(t, mag + 1))
                 \/ mag > 0 /\ MagLt(f, d) /\ MagLt(Decode(t, mag - 1), f)
\* three numbers without sign of 11, 11 and 10 bits in a word of two halves
Packed(hi, lo) ==
  LET r == lo % 2048
      g == (lo \div 2048) + 32 * (hi % 64)
      b == hi \div 64
  IN  <<Decode([m |-> 6, e |-> 5, sg |-> 0], r), Decode([m |-> 6, e |-> 5, sg |-> 0], g),
        Decode([m |-> 5, e |-> 5, sg |-> 0], b), <<0, 0, 0>>>>
=============================================================================
