----------------------------- MODULE Morton_MC ------------------------------
\* A surface is filled pixel by pixel, in the order of any walk over it: the
\* places are used once each, all of them, and lead back to the pixels.
EXTENDS Morton
CONSTANT MaxBits
VARIABLES wb, hb, n, mem
Width == 2 ^ wb
Height == 2 ^ hb
Init == wb \in 0..MaxBits /\ hb \in 0..MaxBits /\ n = 0 /\ mem = [a \in {} |-> 0]
Next == /\ n < Width * Height
        /\ n' = n + 1
        /\ LET x == n % Width  y == n \div Width  a == Addr(wb, hb, x, y)
           IN  mem' = [b \in (DOMAIN mem) \cup {a} |-> IF b = a THEN <<x, y>> ELSE mem[b]]
        /\ UNCHANGED <<wb, hb>>
Spec == Init /\ [][Next]_<<wb, hb, n, mem>>
NoneTwice == \A a \in DOMAIN mem : mem[a] = <<X(wb, hb, a), Y(wb, hb, a)>>
Within == \A a \in DOMAIN mem : a \in 0..(Width * Height - 1)
Full == n = Width * Height => DOMAIN mem = 0..(Width * Height - 1)
\* aligned squares are in one piece
Squares == n = Width * Height => \A k \in 0..Less(wb, hb) : \A a \in DOMAIN mem :
  LET b == (a \div (4 ^ k)) * 4 ^ k
  IN  mem[a][1] \div (2 ^ k) = mem[b][1] \div (2 ^ k) /\ mem[a][2] \div (2 ^ k) = mem[b][2] \div (2 ^ k)
=============================================================================
