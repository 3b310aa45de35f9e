------------------------------- MODULE Morton -------------------------------
\* Where the pixels of a swizzled surface lie: the bits of x and y alternate,
\* beginning with x, as far as the shorter side has bits; what is left of the
\* longer side stands above.
EXTENDS Integers, Sequences, FiniteSetsExt
Less(a, b) == IF a < b THEN a ELSE b
Bit(n, k) == (n \div (2 ^ k)) % 2
\* the first k bits of x and y in turns
Turns(k, x, y) == FoldSet(LAMBDA j, acc: acc + Bit(x, j) * 2 ^ (2 * j) + Bit(y, j) * 2 ^ (2 * j + 1), 0, 0..(k - 1))
\* sides given as their numbers of bits
Addr(wb, hb, x, y) == LET k == Less(wb, hb)
                      IN  Turns(k, x, y) + ((x \div (2 ^ k)) + (y \div (2 ^ k))) * 2 ^ (2 * k)
\* and back
EvenBits(k, a) == FoldSet(LAMBDA j, acc: acc + Bit(a, 2 * j) * 2 ^ j, 0, 0..(k - 1))
X(wb, hb, a) == LET k == Less(wb, hb)
                IN  EvenBits(k, a) + IF wb > hb THEN (a \div (2 ^ (2 * k))) * 2 ^ k ELSE 0
Y(wb, hb, a) == LET k == Less(wb, hb)
                IN  EvenBits(k, a \div 2) + IF hb > wb THEN (a \div (2 ^ (2 * k))) * 2 ^ k ELSE 0
=============================================================================
