-------------------------- MODULE SmallFloat_Trace --------------------------
EXTENDS SmallFloat, TraceBase
VARIABLE l
Rec == Trace[l]
\* codes from.. decoded alone and four at a time, and encoded again
Run == \A i \in 1..Len(Rec.one) :
  LET c == Rec.from + i - 1
      nan == (c % Signed(Rec.t)) > Inf(Rec.t)
      d == Decode(Rec.t, c)
      Dec(what, f) == IF nan THEN Expect(what, <<c, f[2], f[3] # 0>>, <<c, 255, TRUE>>) ELSE Expect(what, <<c, f>>, <<c, d>>)
      Back(what, r) == IF nan THEN Expect(what, <<c, (r % Signed(Rec.t)) > Inf(Rec.t)>>, <<c, TRUE>>) ELSE Expect(what, <<c, r>>, <<c, c>>)
  IN  /\ Dec("decoded alone", Rec.one[i]) /\ Dec("decoded among four", Rec.four[i])
      /\ Back("encoded alone", Rec.bone[i]) /\ Back("encoded among four", Rec.bfour[i])
Enc == \A i \in 1..Len(Rec.fs) :
  /\ Holds(<<"code of", Rec.fs[i], Rec.one[i]>>, Encodes(Rec.t, Rec.fs[i], Rec.one[i]))
  /\ Holds(<<"code among four of", Rec.fs[i], Rec.four[i]>>, Encodes(Rec.t, Rec.fs[i], Rec.four[i]))
Pack == \A i \in 1..4 :
  LET w == Packed(Rec.hi, Rec.lo)[i]
  IN  IF IsNaN(w) THEN Holds("NaN", IsNaN(Rec.out[i])) ELSE Expect(<<"packed number", i>>, Rec.out[i], w)
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "reset" -> TRUE [] Rec.op = "codes" -> Run [] Rec.op = "enc" -> Enc
              [] Rec.op = "pack" -> Pack
TSpec == TInit /\ [][TNext]_l
=============================================================================
