------------------------------- MODULE Hashes -------------------------------
(* Hashes of texts: one-at-a-time (JenHash.tla) and lookup3                     *)
(* (datas/jenkinshash3.hpp), four character codes and paddings                  *)
(* (datas/supercore.hpp).  Words are little-endian byte sequences of N bytes.   *)
EXTENDS Integers, Sequences, SequencesExt, TLC
B == INSTANCE Bytes
J == INSTANCE JenHash

Rot(w, k) == LET n == 8 * Len(w)
             IN  B!FromBits(Len(w), LAMBDA i : B!Bit(w, (i + n - (k % n)) % n))
Strict(r) == [a |-> TLCEval(r.a), b |-> TLCEval(r.b), c |-> TLCEval(r.c)]
\* one step of mixing: x -= y; x ^= rot(y, k); y += z
MixStep(x, y, z, k) == <<TLCEval(B!XorB(B!Sub(x, y), Rot(y, k))), TLCEval(B!Add(y, z))>>
Mix(r) ==
  LET s1 == MixStep(r.a, r.c, r.b, 4)      a1 == s1[1]  c1 == s1[2]
      s2 == MixStep(r.b, a1, c1, 6)        b2 == s2[1]  a2 == s2[2]
      s3 == MixStep(c1, b2, a2, 8)         c3 == s3[1]  b3 == s3[2]
      s4 == MixStep(a2, c3, b3, 16)        a4 == s4[1]  c4 == s4[2]
      s5 == MixStep(b3, a4, c4, 19)        b5 == s5[1]  a5 == s5[2]
      s6 == MixStep(c4, b5, a5, 4)
  IN  [a |-> a5, b |-> s6[2], c |-> s6[1]]
\* one step of the end: x ^= y; x -= rot(y, k)
FinStep(x, y, k) == TLCEval(B!Sub(B!XorB(x, y), Rot(y, k)))
Final(r) ==
  LET c1 == FinStep(r.c, r.b, 14)
      a1 == FinStep(r.a, c1, 11)
      b1 == FinStep(r.b, a1, 25)
      c2 == FinStep(c1, b1, 16)
      a2 == FinStep(a1, c2, 4)
      b2 == FinStep(b1, a2, 14)
      c3 == FinStep(c2, b2, 24)
  IN  [a |-> a2, b |-> b2, c |-> c3]

\* the steps taken back
UnMixStep(x, y, z, k) ==                       \* from x', y', z to x, y
  LET y0 == B!Sub(y, z) IN <<B!Add(B!XorB(x, Rot(y0, k)), y0), y0>>
UnMix(r) ==
  LET s6 == UnMixStep(r.c, r.b, r.a, 4)     \* c4, b5
      s5 == UnMixStep(s6[2], r.a, s6[1], 19)   \* b3, a4
      s4 == UnMixStep(s5[2], s6[1], s5[1], 16)  \* a2, c3
      s3 == UnMixStep(s4[2], s5[1], s4[1], 8)   \* c1, b2
      s2 == UnMixStep(s3[2], s4[1], s3[1], 6)   \* b, a1
      s1 == UnMixStep(s2[2], s3[1], s2[1], 4)   \* a, c
  IN  [a |-> s1[1], b |-> s2[1], c |-> s1[2]]
UnFinStep(x, y, k) == B!XorB(B!Add(x, Rot(y, k)), y)
UnFinal(r) ==
  LET c2 == UnFinStep(r.c, r.b, 24)
      b1 == UnFinStep(r.b, r.a, 14)
      a1 == UnFinStep(r.a, c2, 4)
      c1 == UnFinStep(c2, b1, 16)
      b0 == UnFinStep(b1, a1, 25)
      a0 == UnFinStep(a1, c1, 11)
      c0 == UnFinStep(c1, b0, 14)
  IN  [a |-> a0, b |-> b0, c |-> c0]

\* the words of a text, the last one filled up with zeros
Words(n, s) == [k \in 1..((Len(s) + n - 1) \div n) |->
                  [i \in 1..n |-> IF n * (k - 1) + i <= Len(s) THEN s[n * (k - 1) + i] ELSE 0]]
Start(n, len, seed) == B!Add(B!Add(B!Trunc(<<239, 190, 173, 222>>, n), B!Small(n, 4 * len)), seed)
Lookup3State(n, s, seed) ==
  LET ws == Words(n, s)
      len == Len(ws)
      w(i) == IF i <= len THEN ws[i] ELSE B!Zero(n)
      Feed(r, at) == Strict([a |-> B!Add(r.a, w(at)), b |-> B!Add(r.b, w(at + 1)), c |-> B!Add(r.c, w(at + 2))])
      st == Start(n, len, seed)
      blocks == IF len = 0 THEN 0 ELSE (len - 1) \div 3     \* all but the last
      mixed == FoldLeft(LAMBDA r, k : Mix(Feed(r, 3 * k - 2)), [a |-> st, b |-> st, c |-> st],
                        [k \in 1..blocks |-> k])
  IN  IF len = 0 THEN mixed ELSE Final(Feed(mixed, 3 * blocks + 1))
Lookup3(n, s, seed) == Lookup3State(n, s, seed).c

FourCC(s) == SubSeq(s, 1, 4)
\* what is missing in v to a multiple of 2^k
Padding(v, k) == LET n == B!Neg(v) IN B!FromBits(Len(v), LAMBDA i : IF i < k THEN B!Bit(n, i) ELSE 0)
\* the float nearest to one over the largest number of n bits: 2^-n + 2^-2n + ...
\* as far as 23 places reach, one more where the series goes on in the place after
Fraction(n) ==
  LET more == IF 24 % n = 0 THEN 1 ELSE 0
      man == FoldLeft(LAMBDA s, k : s + (IF k % n = 0 THEN 2^(23 - k) ELSE 0), more, [k \in 1..23 |-> k])
      up == man \div 2^23
      num == [low |-> man % 2^23, exp |-> 127 - n + up]
  IN  <<num.low % 256, (num.low \div 256) % 256, num.low \div 65536 + 128 * (num.exp % 2), num.exp \div 2>>
Pow2(v) == \E k \in 0..(8 * Len(v) - 1) : v = B!FromBits(Len(v), LAMBDA i : IF i = k THEN 1 ELSE 0)
=============================================================================
