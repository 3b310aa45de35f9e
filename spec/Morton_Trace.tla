---------------------------- MODULE Morton_Trace ----------------------------
EXTENDS Morton, TraceBase
VARIABLE l
Rec == Trace[l]
Points == \A i \in 1..Len(Rec.at) :
  Expect(<<"place of", Rec.w, Rec.h, Rec.at[i]>>, Rec.out[i], Addr(Rec.w, Rec.h, Rec.at[i][1], Rec.at[i][2]))
\* every pixel of n rows: the places, row by row
Rows == \A r \in 1..Len(Rec.out) : \A x \in 0..(2 ^ Rec.w - 1) :
  Expect(<<"place in row", Rec.w, Rec.h, x, Rec.from + r - 1>>, Rec.out[r][x + 1], Addr(Rec.w, Rec.h, x, Rec.from + r - 1))
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "reset" -> TRUE [] Rec.op = "points" -> Points [] Rec.op = "rows" -> Rows
TSpec == TInit /\ [][TNext]_l
=============================================================================
