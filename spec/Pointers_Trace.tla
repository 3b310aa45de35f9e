--------------------------- MODULE Pointers_Trace ---------------------------
EXTENDS Pointers, TraceBase
VARIABLES l, mem, used
Rec == Trace[l]
\* slots as they are found: the number in them, or the place they point to
Found(m, out) == Len(out) = Len(m) /\ \A i \in 1..Len(m) :
  IF m[i].k = "raw" THEN Expect(<<"number in slot", i>>, out[i].raw, m[i].v)
  ELSE Expect(<<"slot leads to", i>>, out[i].at, m[i].v)
Fixup == LET r == Made(mem, used[Rec.t], Rec.i, Rec.root, Rec.nc = 1)
         IN  <<Expect("told", Rec.r, IF r[1] THEN 1 ELSE 0), r[2], [used EXCEPT ![Rec.t] = r[3]]>>
\* what a pointer leads to, by the ways of asking: null or the place
Read == Expect("reading", <<Rec.conv, Rec.cconv, Rec.arrow, Rec.carrow>>,
               LET v == IF mem[Rec.i] = Null THEN 0 ELSE mem[Rec.i].v IN <<v, v, v, v>>)
        /\ (mem[Rec.i].k = "at" /\ Rec.star >= 0 => Expect("what is there", <<Rec.star, Rec.cstar>>, <<Rec.want, Rec.want>>))
Step == CASE Rec.op = "reset" -> <<TRUE, [i \in 1..Rec.n |-> Null], [t \in 1..2 |-> {}]>>
  [] Rec.op = "poke" -> <<TRUE, [mem EXCEPT ![Rec.i] = [k |-> "raw", v |-> Rec.v]], used>>
  [] Rec.op = "fixup" -> Fixup
  [] Rec.op = "fixed" -> <<Expect("fixed", Rec.r, IF Rec.i \in used[Rec.t] THEN 1 ELSE 0), mem, used>>
  [] Rec.op = "read" -> <<Read, mem, used>>
  [] Rec.op = "assign" -> <<TRUE, IF Rec.null = 1 THEN SetNull(mem, Rec.i) ELSE Set(mem, Rec.i, Rec.at), used>>
  [] Rec.op = "clear" -> <<TRUE, mem, [used EXCEPT ![Rec.t] = {}]>>
TInit == l = 1 /\ mem = <<>> /\ used = [t \in 1..2 |-> {}]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ LET s == Step
            IN  s[1] /\ Found(s[2], Rec.mem) /\ mem' = s[2] /\ used' = s[3]
TSpec == TInit /\ [][TNext]_<<l, mem, used>>
=============================================================================
