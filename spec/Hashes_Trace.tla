---------------------------- MODULE Hashes_Trace ----------------------------
EXTENDS Hashes, TraceBase
VARIABLE l
Rec == Trace[l]
LtW(a, b) == IF B!Lt(a, b) THEN 1 ELSE 0
\* a text hashed, at run time or when compiled, and from a copy elsewhere
Text ==
  /\ Expect("usual hash", Rec.wide, J!Wide(Rec.s))
  /\ Expect("canonical hash", Rec.canon, J!Canon(Rec.s))
  /\ Expect("lookup3", Rec.l3, Lookup3(4, Rec.s, B!Zero(4)))
Seeded == Expect("seeded lookup3", Rec.l3, Lookup3(4, Rec.s, Rec.seed))
\* two texts compared by their hashes, and by number
Pair ==
  LET a == J!Wide(Rec.s)
      b == J!Wide(Rec.t)
      e == IF a = b THEN 1 ELSE 0
  IN  /\ Expect("a == b", Rec.eq, <<e, e, e>>) /\ Expect("a != b", Rec.ne, <<1 - e, 1 - e, 1 - e>>)
      /\ Expect("a < b", Rec.lt, LtW(a, b)) /\ Expect("a > b", Rec.gt, LtW(b, a))
Code == Expect("code", Rec.cc, FourCC(Rec.s))
Pad == Expect("padding", Rec.p, Padding(Rec.v, Rec.k))
Two == Expect("power of two", Rec.r, IF Pow2(Rec.v) THEN 1 ELSE 0)
Frac == Expect("fraction", Rec.f, Fraction(Rec.n))
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "reset" -> TRUE [] Rec.op = "text" -> Text [] Rec.op = "seed" -> Seeded
              [] Rec.op = "pair" -> Pair [] Rec.op = "code" -> Code [] Rec.op = "pad" -> Pad
              [] Rec.op = "pow2" -> Two [] Rec.op = "frac" -> Frac
TSpec == TInit /\ [][TNext]_l
=============================================================================
