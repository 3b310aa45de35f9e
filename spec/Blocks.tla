------------------------------- MODULE Blocks -------------------------------
\* Blocks of four by four pixels, each of 8 or 16 bytes, and the image they make up
EXTENDS Integers, Sequences, FiniteSets
Pow(n) == 2 ^ n
W16(d, at) == d[at + 1] + 256 * d[at + 2]
\* ----- colours of 5, 6, 5 bits, lowest bits first
Part(c, i) == CASE i = 1 -> c % 32 [] i = 2 -> (c \div 32) % 64 [] i = 3 -> c \div 2048
Full(i) == IF i = 2 THEN 63 ELSE 31
\* two bits tell which colour, those of the first pixel lowest
Choice(d, at, p) == (d[at + 5 + (p \div 4)] \div Pow(2 * (p % 4))) % 4
\* a component as a ratio: of 255 * num / den
Colour(c1, c2, k, i, four) ==
  CASE k = 0 -> <<Part(c1, i), Full(i)>> [] k = 1 -> <<Part(c2, i), Full(i)>>
    [] k = 2 /\ four -> <<2 * Part(c1, i) + Part(c2, i), 3 * Full(i)>> [] k = 3 /\ four -> <<Part(c1, i) + 2 * Part(c2, i), 3 * Full(i)>>
    [] k = 2 /\ ~four -> <<Part(c1, i) + Part(c2, i), 2 * Full(i)>> [] OTHER -> <<0, 1>>
Abs(v) == IF v < 0 THEN -v ELSE v
Near(v, q, e) == Abs(v * q[2] - 255 * q[1]) <= e * q[2]
\* ----- values of 8 bits: two of them, and six between or four between and the ends
Ramp(a, b, k) == CASE k = 0 -> a [] k = 1 -> b
                   [] k > 1 /\ a > b -> ((8 - k) * a + (k - 1) * b) \div 7
                   [] k = 6 -> 0 [] k = 7 -> 255
                   [] OTHER -> ((6 - k) * a + (k - 1) * b) \div 5
\* three bits tell which, from the lowest of 48 on
RECURSIVE BitsOf(_, _, _)
BitsOf(d, from, n) == IF n = 0 THEN 0 ELSE ((d[(from \div 8) + 1] \div Pow(from % 8)) % 2) + 2 * BitsOf(d, from + 1, n - 1)
Step(d, at, p) == BitsOf(d, (at + 2) * 8 + 3 * p, 3)
Value(d, at, p) == Ramp(d[at + 1], d[at + 2], Step(d, at, p))
\* ----- values of 4 bits
Nibble(d, p) == BitsOf(d, 4 * p, 4) * 17
\* ----- kinds: bytes of a block and of a pixel
Bytes(kind) == IF kind \in {"bc1", "bc1a", "bc4", "sbc1"} THEN 8 ELSE 16
Size(kind) == CASE kind \in {"bc1", "bc5", "sbc1"} -> 3 [] kind = "bc4" -> 1 [] kind = "bc5ga" -> 2 [] OTHER -> 4
\* what byte i of pixel p is to be: v is, or was was
Fits(kind, d, p, i, v, was) ==
  LET at == IF kind \in {"bc2", "bc3"} THEN 8 ELSE 0
      c1 == W16(d, at)  c2 == W16(d, at + 2)  k == Choice(d, at, p)
      colour(four, e) == Near(v, Colour(c1, c2, k, i, four), e)
  IN  CASE kind = "bc4" -> v = Value(d, 0, p)
        [] kind = "bc5ga" -> v = Value(d, 8 * (i - 1), p)
        [] kind = "bc5" -> v = (IF i = 1 THEN was ELSE Value(d, 8 * (i - 2), p))
        [] kind = "bc3" /\ i = 4 -> v = Value(d, 0, p)
        [] kind = "bc2" /\ i = 4 -> v = Nibble(d, p)
        [] kind \in {"bc2", "bc3"} -> colour(TRUE, 1)
        [] kind = "bc1a" /\ i = 4 -> v = (IF c1 <= c2 /\ k = 3 THEN 0 ELSE 255)
        [] kind = "bc1a" -> IF c1 > c2 THEN colour(TRUE, 1) ELSE k = 3 \/ colour(FALSE, 2)
        [] kind = "bc1" -> colour(TRUE, 1) \/ (c1 <= c2 /\ colour(FALSE, 2))           \* whether blocks may have three colours is left open
        [] kind = "sbc1" -> colour(TRUE, 9) \/ (c1 <= c2 /\ colour(FALSE, 10))         \* quicker, and less exact
\* ----- an image of blocks
At(w, bx, by, p) == ((4 * by + (p \div 4)) * 4 * w + 4 * bx + (p % 4))             \* the number of a pixel
Where(w, bx, by, n) == LET x == n % (4 * w)  y == n \div (4 * w) IN IF x \div 4 = bx /\ y \div 4 = by THEN (y % 4) * 4 + (x % 4) ELSE -1
Byte(kind, w, bx, by, d, was, v, k) ==
  LET s == Size(kind)  p == Where(w, bx, by, (k - 1) \div s) IN IF p < 0 THEN v = was ELSE Fits(kind, d, p, ((k - 1) % s) + 1, v, was)
\* the third component of a direction, of two which are told; all in 127.5ths around 127.5
Third(r, g, v) == LET x == 2 * r - 255  y == 2 * g - 255  z2 == 65025 - x * x - y * y  z == 2 * v - 255
                  IN  IF z2 <= 0 THEN v \in 126..129 ELSE z >= -2 /\ (IF z > 6 THEN (z - 6) * (z - 6) <= z2 ELSE TRUE) /\ (z + 6) * (z + 6) >= z2
=============================================================================
