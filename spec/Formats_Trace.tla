---------------------------- MODULE Formats_Trace ---------------------------
\* Codecs asked for elements alone and in rows, into vectors that are kept
EXTENDS Formats, TraceBase
VARIABLES l, ni, nf                    \* lengths of the two vectors
Rec == Trace[l]
IntsOk(b, out) == \A i \in 1..4 : Expect(<<"integer", Rec.t, Rec.c, b, i>>, out[i], IntOf(Rec.t, b, Rec.c, i))
NumsOk(b, out) == \A i \in 1..4 : Holds(<<"number", Rec.t, Rec.c, b, i, "is", out[i]>>, NumberOk(Rec.t, b, Rec.c, i, out[i]))
Get == IF ~Known(Rec.t, Rec.c) THEN Expect("no codec", Rec.none, 1)
  ELSE /\ Expect("codec", Rec.none, 0)
       /\ Expect("errors of the integer and the number call", <<Rec.ierr, Rec.ferr>>, IF Integer(Rec.t) THEN <<0, 1>> ELSE <<1, 0>>)
       /\ IF Integer(Rec.t) THEN IntsOk(Rec.b, Rec.ints) ELSE NumsOk(Rec.b, Rec.nums)
Asked(n) == IF Rec.n = 0 THEN n ELSE Rec.n
Sample ==
  LET wrong == (Rec.k = "i") # Integer(Rec.t)
      bad == wrong \/ (Rec.stride # 0 /\ Rec.stride < Size(Rec.c))
      n == IF Rec.k = "i" THEN ni ELSE nf
  IN  /\ Expect("error", Rec.err, IF bad THEN 1 ELSE 0)
      /\ Expect("length", Rec.len, IF bad THEN n ELSE Asked(n))
      /\ ~bad => \A i \in 1..Rec.len :
           LET b == Element(Rec.b, Rec.c, Rec.stride, i)
           IN  IF Rec.k = "i" THEN IntsOk(b, Rec.out[i]) ELSE NumsOk(b, Rec.out[i])
\* formats told apart, and put in an order
Key(d) == d[2] * 65536 + d[1]
Order == /\ Expect("the same", Rec.eq, IF Rec.x = Rec.y THEN 1 ELSE 0)
         /\ Expect("one of them first", Rec.lt + Rec.gt, IF Rec.x = Rec.y THEN 0 ELSE 1)
         /\ Expect("before", Rec.lt, IF Key(Rec.x) < Key(Rec.y) THEN 1 ELSE 0)
TInit == l = 1 /\ ni = 0 /\ nf = 0
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "get" -> Get [] Rec.op = "sample" -> Sample [] Rec.op = "order" -> Order [] OTHER -> TRUE
         /\ ni' = (IF Rec.op = "reset" THEN 0 ELSE IF Rec.op = "sample" /\ Rec.k = "i" THEN Rec.len ELSE ni)
         /\ nf' = (IF Rec.op = "reset" THEN 0 ELSE IF Rec.op = "sample" /\ Rec.k = "f" THEN Rec.len ELSE nf)
TSpec == TInit /\ [][TNext]_<<l, ni, nf>>
=============================================================================
