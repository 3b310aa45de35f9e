-------------------------------- MODULE Bytes --------------------------------
(* Machine words as little-endian byte sequences, because TLC's integers are   *)
(* 32 bits wide: comparison, arithmetic, bits, decimal digits.                 *)
EXTENDS Integers, Sequences, Bitwise

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>

Bit(w, i) == (w[(i \div 8) + 1] \div P2[(i % 8) + 1]) % 2      \* i is 0-based

NBits(w) == 8 * Len(w)

FromBits(n, f(_)) ==        \* n bytes, bit i is f(i) \in {0,1}
  [k \in 1..n |-> f(8*(k-1)) + 2*f(8*(k-1)+1) + 4*f(8*(k-1)+2) + 8*f(8*(k-1)+3)
                + 16*f(8*(k-1)+4) + 32*f(8*(k-1)+5) + 64*f(8*(k-1)+6) + 128*f(8*(k-1)+7)]

Zero(n) == [k \in 1..n |-> 0]
Ones(n) == [k \in 1..n |-> 255]
NotB(w) == [k \in 1..Len(w) |-> 255 - w[k]]
AndB(a, b) == [k \in 1..Len(a) |-> a[k] & b[k]]
OrB(a, b)  == [k \in 1..Len(a) |-> a[k] | b[k]]
XorB(a, b) == [k \in 1..Len(a) |-> a[k] ^^ b[k]]
Rev(w) == [k \in 1..Len(w) |-> w[Len(w) + 1 - k]]

IsNeg(w) == w[Len(w)] >= 128

RECURSIVE AddC(_, _, _, _)
AddC(a, b, k, c) ==
  IF k > Len(a) THEN <<>>
  ELSE LET s == a[k] + b[k] + c IN <<s % 256>> \o AddC(a, b, k + 1, s \div 256)
Add(a, b) == AddC(a, b, 1, 0)                                   \* modulo 2^(8n)

Small(n, v) == [k \in 1..n |->                                  \* 0 <= v < 2^31
  CASE k = 1 -> v % 256 [] k = 2 -> (v \div 256) % 256
    [] k = 3 -> (v \div 65536) % 256 [] k = 4 -> v \div 16777216 [] OTHER -> 0]

Neg(a) == Add(NotB(a), Small(Len(a), 1))
Sub(a, b) == Add(a, Neg(b))

\* unsigned comparison of equally long words
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, k) ==
  IF k = 0 THEN FALSE
  ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LtFrom(a, b, k - 1)
Lt(a, b) == LtFrom(a, b, Len(a))
Leq(a, b) == ~Lt(b, a)

IsZero(a) == \A k \in 1..Len(a) : a[k] = 0

\* zero / sign extension and truncation
ZExt(a, n) == [k \in 1..n |-> IF k <= Len(a) THEN a[k] ELSE 0]
SExt(a, n) == [k \in 1..n |-> IF k <= Len(a) THEN a[k] ELSE IF IsNeg(a) THEN 255 ELSE 0]
Trunc(a, n) == SubSeq(a, 1, n)

\* shifts and fields
Shr(a, s) == FromBits(Len(a), LAMBDA i : IF i + s < NBits(a) THEN Bit(a, i + s) ELSE 0)
Shl(a, s) == FromBits(Len(a), LAMBDA i : IF i >= s THEN Bit(a, i - s) ELSE 0)
MaskLow(n, b) == FromBits(n, LAMBDA i : IF i < b THEN 1 ELSE 0)   \* b low bits set

\* small multiplication and division
RECURSIVE MulC(_, _, _, _)
MulC(a, m, k, c) ==
  IF k > Len(a) THEN <<>>
  ELSE LET s == a[k] * m + c IN <<s % 256>> \o MulC(a, m, k + 1, s \div 256)
MulSmall(a, m) == MulC(a, m, 1, 0)

RECURSIVE DivC(_, _, _, _)                    \* most significant first
DivC(a, m, k, r) ==
  IF k = 0 THEN [q |-> <<>>, r |-> r]
  ELSE LET s == r * 256 + a[k]
           t == DivC(a, m, k - 1, s % m)
       IN  [q |-> Append(t.q, s \div m), r |-> t.r]
DivSmall(a, m) == DivC(a, m, Len(a), 0)

\* decimal text (character codes) of an unsigned word
RECURSIVE Dec(_)
Dec(a) ==
  LET d == DivSmall(a, 10)
  IN  IF IsZero(d.q) THEN <<48 + d.r>> ELSE Append(Dec(d.q), 48 + d.r)
\* decimal text of a two's complement word
SDec(a) == IF IsNeg(a) THEN <<45>> \o Dec(Neg(a)) ELSE Dec(a)
=============================================================================
