----------------------------- MODULE Formats_MC -----------------------------
\* Tiny formats: elements are put together from any components, one component
\* after the other, and taken apart again; fractions keep the order of the
\* components, reach from (minus) one to one, and are cut correctly.
EXTENDS Formats, TLC
CONSTANT MB                                   \* bits of fractions
VARIABLES comp, parts, bits                   \* format, components so far, the element as a number
Init == comp \in {"2.1", "3.3.2", "1.4", "R5G6B5", "R5G5B5A1"} /\ parts = <<>> /\ bits = 0
Next == /\ Len(parts) < Len(Widths(comp))
        /\ LET i == Len(parts) + 1  n == Widths(comp)[i]
           IN  \E v \in (IF n <= 4 THEN 0..(2 ^ n - 1) ELSE {0, 1, 7, 2 ^ (n - 1) - 1, 2 ^ (n - 1), 2 ^ n - 1}) :
                 parts' = Append(parts, v) /\ bits' = bits + v * 2 ^ SumTo(Widths(comp), i - 1)
        /\ UNCHANGED comp
Spec == Init /\ [][Next]_<<comp, parts, bits>>
Elem == [i \in 1..2 |-> (bits \div 256 ^ (i - 1)) % 256]
Full == Len(parts) = Len(Widths(comp))
Apart == Full => \A i \in 1..Len(parts) : IntOf("UINT", Elem, comp, i) = <<0, parts[i]>>
Signs == Full => \A i \in 1..Len(parts) :
  LET n == Widths(comp)[i]  h == IntOf("INT", Elem, comp, i)
      s == IF Negative(h) THEN -Magnitude(h) ELSE Magnitude(h)
  IN  s \in -(2 ^ (n - 1))..(2 ^ (n - 1) - 1) /\ (s - parts[i]) % 2 ^ n = 0
\* m * 2 ^ -k is the fraction a / d cut
CutsOf(a, d) == LET p == PlaceOf(a, d, MB)
                    x == p \div 2 ^ MB  m == 2 ^ MB + (p % 2 ^ MB)  k == MB + 127 - x
                IN  IF a = 0 THEN p = 0 ELSE m * d <= a * 2 ^ k /\ a * 2 ^ k < (m + 1) * d
ASSUME \A n \in 1..6 : LET d == 2 ^ n - 1 IN
  /\ \A a \in 0..(d + 1) : CutsOf(a, d)
  /\ \A a \in 0..d : PlaceOf(a, d, MB) < PlaceOf(a + 1, d, MB) \/ n > MB
  /\ PlaceOf(d, d, MB) = 127 * 2 ^ MB
ASSUME \A c \in Named : Size(c) * 8 = SumTo(Widths(c), Len(Widths(c)))
=============================================================================
