-------------------------------- MODULE Vec --------------------------------
\* Vectors of two to four components, component by component.
\* Components: integers of 8, 16, 32 bits (those of 32 bits without sign told as if they had one), and floating point numbers in 1024ths.
EXTENDS Bytes, FiniteSets
Bits(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16 [] OTHER -> 32
Unsigned(t) == t \in {"u8", "u16", "u32", "su"}
Float(t) == t \in {"f", "sf"}
Lone(t) == t \in {"sf", "si", "su"}              \* four together
Pow(n) == 2 ^ n
\* what is left of v in a component (of 32 bits: all, results are within)
Wrap(t, v) == IF Float(t) \/ Bits(t) = 32 THEN v
              ELSE LET m == v % Pow(Bits(t)) IN IF ~Unsigned(t) /\ m >= Pow(Bits(t) - 1) THEN m - Pow(Bits(t)) ELSE m
Abs(v) == IF v < 0 THEN -v ELSE v
Quot(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
AsBytes(v) == [k \in 1..4 |-> (v \div Pow(8 * (k - 1))) % 256]
AsInt(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (IF b[4] >= 128 THEN b[4] - 256 ELSE b[4])
Do(t, op, a, b) ==
  CASE op = "add" -> Wrap(t, a + b) [] op = "sub" -> Wrap(t, a - b)
    [] op = "mul" -> IF Float(t) THEN (a * b) \div 1024 ELSE Wrap(t, a * b)
    [] op = "div" -> IF Float(t) THEN (a * 1024) \div b ELSE Wrap(t, Quot(a, b))
    [] op = "and" -> Wrap(t, AsInt(AndB(AsBytes(a), AsBytes(b)))) [] op = "or" -> Wrap(t, AsInt(OrB(AsBytes(a), AsBytes(b))))
    [] op = "xor" -> Wrap(t, AsInt(XorB(AsBytes(a), AsBytes(b)))) [] op = "not" -> Wrap(t, -1 - a)
Left(t, a, s) == IF Bits(t) < 32 THEN Wrap(t, a * Pow(s))
                ELSE AsInt(FromBits(4, LAMBDA i : IF i < s THEN 0 ELSE Bit(AsBytes(a), i - s)))
Right(t, a, s) == IF t \in {"u32", "su"} THEN AsInt(FromBits(4, LAMBDA i : IF i + s > 31 THEN 0 ELSE Bit(AsBytes(a), i + s)))
                 ELSE IF s = 31 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow(s)
Bin(t, op, a, b) == [i \in 1..Len(a) |-> Do(t, op, a[i], b[i])]
Splat(n, v) == [i \in 1..n |-> v]
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Dot(t, a, b) == LET s == SumOf([i \in 1..Len(a) |-> a[i] * b[i]]) IN IF Float(t) THEN s \div 1024 ELSE Wrap(t, s)
Cross(t, a, b) ==
  LET m(i, j) == IF Float(t) THEN (a[i] * b[j] - a[j] * b[i]) \div 1024 ELSE Wrap(t, a[i] * b[j] - a[j] * b[i]) IN <<m(2, 3), m(3, 1), m(1, 2)>>
IsRoot(t, r, a) ==                 \* r is the length of a: for integers, what it is without its fraction
  LET s == SumOf([i \in 1..Len(a) |-> a[i] * a[i]]) IN r >= 0 /\ r <= 46340 /\ r * r <= s /\ (IF Float(t) THEN r * r = s ELSE r = 46340 \/ (r + 1) * (r + 1) > s)
Sym(a) == \A i \in 1..Len(a) : a[i] = a[1]
Sign(t, a) == IF ~Unsigned(t) /\ \E i \in 1..Len(a) : a[i] < 0 THEN -1 ELSE 1
Fit(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
\* as another type
To(t, u, v) == CASE Float(t) /\ Float(u) -> v [] Float(t) -> Wrap(u, Quot(v, 1024)) [] Float(u) -> v * 1024 [] OTHER -> Wrap(u, v)
Even(v) == LET q == v \div 1024  r == v % 1024 IN IF r > 512 \/ (r = 512 /\ q % 2 = 1) THEN q + 1 ELSE q      \* nearest, of two the even one
\* ----- text
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Decimal(v) == IF v < 0 THEN <<45>> \o Digits(-v) ELSE Digits(v)
Six(v) == LET f == ((Abs(v) % 1024) * 15625) \div 16
              d == Digits(1000000 + f)
          IN  (IF v < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs(v) \div 1024) \o <<46>> \o Tail(d)
RECURSIVE Short(_)
Short(s) == IF s[Len(s)] = 48 THEN Short(SubSeq(s, 1, Len(s) - 1)) ELSE IF s[Len(s)] = 46 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RECURSIVE Join(_)
Join(parts) == IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o <<32>> \o Join(Tail(parts))
Text(t, a) == Join([i \in 1..Len(a) |-> IF Float(t) THEN Six(a[i]) ELSE Decimal(a[i])])
Streamed(t, a) == Join([i \in 1..Len(a) |-> IF Float(t) THEN Short(Six(a[i])) ELSE IF Bits(t) = 8 THEN <<a[i] % 256>> ELSE Decimal(a[i])])
\* ----- almost equal: components in units of the least difference at 1, which is what may lie between
Near(a, b, e) == \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= e
=============================================================================
