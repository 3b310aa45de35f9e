------------------------------- MODULE Formats ------------------------------
(* Elements of vertex and pixel data: components are fields of bits from the    *)
(* lowest on, told as integers, as fractions of their greatest value, or as     *)
(* floating point numbers (uni/format.hpp). Integers of 32 bits are pairs of    *)
(* halves, single precision numbers triples <<sign, exponent field, fraction>>. *)
EXTENDS SmallFloat
Widths(c) == CASE c = "R32G32B32A32" -> <<32, 32, 32, 32>> [] c = "R32G32B32" -> <<32, 32, 32>>
  [] c = "R16G16B16A16" -> <<16, 16, 16, 16>> [] c = "R32G32" -> <<32, 32>> [] c = "R16G16B16" -> <<16, 16, 16>>
  [] c = "R32" -> <<32>> [] c = "R16G16" -> <<16, 16>> [] c = "R10G10B10A2" -> <<10, 10, 10, 2>>
  [] c = "R11G11B10" -> <<11, 11, 10>> [] c = "R8G8B8A8" -> <<8, 8, 8, 8>> [] c = "R24G8" -> <<24, 8>>
  [] c = "R8G8B8" -> <<8, 8, 8>> [] c = "R8G8" -> <<8, 8>> [] c = "R16" -> <<16>> [] c = "R5G6B5" -> <<5, 6, 5>>
  [] c = "R5G5B5A1" -> <<5, 5, 5, 1>> [] c = "R8" -> <<8>>
  [] c = "2.1" -> <<2, 1>> [] c = "3.3.2" -> <<3, 3, 2>> [] c = "1.4" -> <<1, 4>>           \* tiny, for the model
Named == {"R32G32B32A32", "R32G32B32", "R16G16B16A16", "R32G32", "R16G16B16", "R32", "R16G16", "R10G10B10A2",
          "R11G11B10", "R8G8B8A8", "R24G8", "R8G8B8", "R8G8", "R16", "R5G6B5", "R5G5B5A1", "R8"}
Floats == {"R32G32B32A32", "R32G32B32", "R32G32", "R32", "R16G16B16A16", "R16G16B16", "R16G16", "R16", "R11G11B10"}
Known(t, c) == \/ (t \in {"INT", "UINT", "NORM", "UNORM"} /\ c \in Named)
               \/ (t = "FLOAT" /\ c \in Floats)
               \/ (t = "UFLOAT" /\ c = "R11G11B10")
Integer(t) == t \in {"INT", "UINT"}
RECURSIVE SumTo(_, _)
SumTo(w, i) == IF i = 0 THEN 0 ELSE w[i] + SumTo(w, i - 1)
Size(c) == (SumTo(Widths(c), Len(Widths(c))) + 7) \div 8

\* n bits (at most 24) from bit p on of bytes b
RECURSIVE Bits(_, _, _)
Bits(b, p, n) == IF n = 0 THEN 0
                 ELSE LET k == 8 - (p % 8)
                          m == IF n < k THEN n ELSE k
                          here == (b[(p \div 8) + 1] \div 2 ^ (p % 8)) % 2 ^ m
                      IN  here + 2 ^ m * Bits(b, p + m, n - m)
Field(b, c, i) == LET p == SumTo(Widths(c), i - 1)  n == Widths(c)[i]
                  IN  IF n = 32 THEN <<Bits(b, p + 16, 16), Bits(b, p, 16)>>
                      ELSE LET v == Bits(b, p, n) IN <<v \div 65536, v % 65536>>
Num(h) == h[1] * 65536 + h[2]
\* as halves, with its sign in the highest of n bits
Extended(h, n) ==
  IF n = 32 THEN h
  ELSE LET v == Num(h)
       IN  IF v < 2 ^ (n - 1) THEN h
           ELSE IF n <= 16 THEN <<65535, h[2] + 65536 - 2 ^ n>> ELSE <<h[1] + 65536 - 2 ^ (n - 16), h[2]>>
Negative(h) == h[1] >= 32768
\* what is below zero without its sign; the lowest of all does not fit
Lowest(h) == h = <<32768, 0>>
Magnitude(h) == IF Negative(h) THEN (65535 - h[1]) * 65536 + 65536 - h[2] ELSE Num(h)

\* the fraction a / d, a <= 2 d, cut to single precision: its place in the order of the numbers
RECURSIVE Mantissa(_, _, _, _), Find(_, _, _)
Mantissa(r, d, k, acc) == IF k = 0 THEN acc
  ELSE IF r >= d - r THEN Mantissa(r - (d - r), d, k - 1, 2 * acc + 1) ELSE Mantissa(2 * r, d, k - 1, 2 * acc)
Find(r, d, x) == IF r >= d - r THEN <<r - (d - r), x>> ELSE Find(2 * r, d, x - 1)
PlaceOf(a, d, mb) ==
  IF a = 0 THEN 0
  ELSE IF d = 1 THEN (126 + a) * 2 ^ mb
  ELSE IF a >= d THEN 127 * 2 ^ mb + Mantissa(a - d, d, mb, 0)
  ELSE LET f == Find(a, d, 126) IN f[2] * 2 ^ mb + Mantissa(f[1], d, mb, 0)
Place(a, d) == PlaceOf(a, d, 23)
Near(f, neg, a, d) ==
  LET p == f[2] * 2 ^ 23 + f[3]  q == Place(a, d)
  IN  /\ p - q \in -2..2
      /\ (p # 0 => (f[1] = 1) = neg)
\* components of one bit less than their neighbours are told to the neighbours' last place
Short(c, i) == c \in {"R5G6B5", "R11G11B10", "3.3.2"} /\ \E j \in 1..Len(Widths(c)) : Widths(c)[j] > Widths(c)[i]
UnormOk(b, c, i, f) ==
  LET n == Widths(c)[i]  h == Field(b, c, i)
  IN  IF n = 32 THEN Near(f, FALSE, h[1] * 32768 + (h[2] \div 2), 2147483647)          \* to 31 bits
      ELSE \/ Near(f, FALSE, Num(h), 2 ^ n - 1)
           \/ Short(c, i) /\ \E e \in 0..1 : Near(f, FALSE, 2 * Num(h) + e, 2 ^ (n + 1) - 1)
NormOk(b, c, i, f) ==
  LET n == Widths(c)[i]  h == Extended(Field(b, c, i), n)
  IN  IF n = 1 THEN Near(f, Negative(h), Magnitude(h), 1)
      ELSE IF Lowest(h) THEN f[1] = 1 /\ f[2] * 2 ^ 23 + f[3] - 127 * 2 ^ 23 \in -2..2
      ELSE \/ Near(f, Negative(h), Magnitude(h), (2 ^ (n - 2)) - 1 + 2 ^ (n - 2))
           \/ Short(c, i) /\ \E e \in 0..1 :
                Near(f, Negative(h), IF Negative(h) THEN 2 * Magnitude(h) - e ELSE 2 * Magnitude(h) + e, 2 ^ n - 1)
FloatOf(t, b, c, i) ==
  LET n == Widths(c)[i]  h == Field(b, c, i)
  IN  CASE n = 32 -> <<h[1] \div 32768, (h[1] \div 128) % 256, (h[1] % 128) * 65536 + h[2]>>
        [] n = 16 -> Decode([m |-> 10, e |-> 5, sg |-> 1], Num(h))
        [] t = "FLOAT" -> Decode([m |-> n - 6, e |-> 5, sg |-> 1], Num(h))
        [] OTHER -> Decode([m |-> n - 5, e |-> 5, sg |-> 0], Num(h))
FloatOk(t, b, c, i, f) == LET want == FloatOf(t, b, c, i) IN IF IsNaN(want) THEN IsNaN(f) ELSE f = want
\* one element of bytes b as four components
IntOf(t, b, c, i) == IF i > Len(Widths(c)) THEN <<0, 0>>
                     ELSE IF t = "UINT" THEN Field(b, c, i) ELSE Extended(Field(b, c, i), Widths(c)[i])
NumberOk(t, b, c, i, f) == IF i > Len(Widths(c)) THEN f = <<0, 0, 0>>
  ELSE CASE t = "UNORM" -> UnormOk(b, c, i, f) [] t = "NORM" -> NormOk(b, c, i, f) [] OTHER -> FloatOk(t, b, c, i, f)
\* the element i of many
Element(b, c, stride, i) == LET o == (i - 1) * (IF stride = 0 THEN Size(c) ELSE stride) IN SubSeq(b, o + 1, o + Size(c))
=============================================================================
