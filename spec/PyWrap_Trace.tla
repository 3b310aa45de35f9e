---------------------------- MODULE PyWrap_Trace ----------------------------
EXTENDS PyWrap, TraceBase
VARIABLES l, s
Rec == Trace[l]
i == s.h[Rec.g]
th == Thing(s, i)
Fine == Expect("error", Rec.err, "")
Ends(g) == Expect("ended", Rec.gone, g)
NoEnd == Ends(<<>>)
AnyError == Expect("an error told", Rec.err \in {"TypeError", "IndexError", "AttributeError", "ValueError", "KeyError"}, TRUE)
Error(e) == Expect("error", Rec.err, e)
New(x) == Expect("type", Rec.type, TypeName(Thing(x, Len(x.o)).kind))
Reset == s' = [Empty EXCEPT !.w = <<>>]
MakeThing == s' = [s EXCEPT !.w = Append(@, Rec.th)] /\ Expect("number", Rec.id, Len(s'.w)) /\ NoEnd
Wrap == LET n == Put(s, Rec.h, Rec.id, Rec.own) IN Fine /\ New(n) /\ NoEnd /\ s' = n
Del == Fine /\ Ends(DropEnds(s, Rec.h)) /\ s' = Drop(s, Rec.h)
Same == NoEnd /\ s' = [s EXCEPT !.h[Rec.h] = i]
Length == Fine /\ Expect("length", Rec.n, Len(th.items)) /\ NoEnd /\ UNCHANGED s
Get ==
  IF Rec.k = "other" THEN AnyError /\ NoEnd /\ UNCHANGED s
  ELSE IF Has(s, i, Rec.n) THEN LET n == Item(s, Rec.h, i, Rec.n) IN Fine /\ New(n) /\ NoEnd /\ s' = n
  ELSE Error("IndexError") /\ NoEnd /\ UNCHANGED s
Iter == Fine /\ NoEnd /\ s' = Loop([s EXCEPT !.h[Rec.h] = i], i, 0)
NextItem ==
  LET at == s.o[i].it IN
  IF Has(s, i, at)
  THEN LET n == Loop(Item(s, Rec.h, i, at), i, at + 1) IN Fine /\ Expect("loop over", Rec.end, 0) /\ New(n) /\ NoEnd /\ s' = n
  ELSE Fine /\ Expect("loop over", Rec.end, 1) /\ NoEnd /\ UNCHANGED s
All ==
  /\ Fine
  /\ Expect("items", Rec.names, [k \in 1..Len(th.items) |-> LET it == s.w[th.items[k]] IN IF it.kind = Track THEN <<it.b>> ELSE it.name])
  /\ Ends(IF th.fresh = 1 THEN SortSeq([k \in 1..Len(th.items) |-> th.items[k] + 1000], LAMBDA a, b : a < b) ELSE <<>>)
  /\ s' = Loop(s, i, Len(th.items))
GetAttr ==
  LET a == Attr(s, i, Rec.n) IN
  IF a.shape = "error" THEN Error("AttributeError") /\ NoEnd /\ UNCHANGED s
  ELSE /\ Fine /\ Expect("shape", Rec.shape, a.shape) /\ Expect("value", Rec.v, a.v)
       /\ NoEnd
       /\ s' = IF Rec.n \in Others /\ a # None THEN Led(s, Rec.h, i, Rec.n) ELSE s
Set ==
  IF Rec.n = "framerate" /\ th.kind = Motion /\ Rec.k = "int" THEN Fine /\ NoEnd /\ s' = SetRate(s, i, Rec.r)
  ELSE AnyError /\ NoEnd /\ UNCHANGED s
Values ==
  /\ NoEnd /\ UNCHANGED s
  /\ IF Rec.k = "other" THEN AnyError
     ELSE IF th.a > 5 THEN Fine /\ Expect("no list", Len(Rec.odd), 1)
     ELSE /\ Fine /\ Expect("a list", Rec.odd, <<>>)
          /\ Expect("values", Rec.vals, [k \in 1..Len(Rec.times) |-> Value(th, Rec.times[k])])
Cmp == Expect("differ", Rec.r, IF Differ(s, i, s.h[Rec.h]) THEN 1 ELSE 0) /\ NoEnd /\ UNCHANGED s
\* enumerations: of the library, or told with the record
Table == IF Rec.which \in DOMAIN Known THEN Known[Rec.which] ELSE Rec.table
EnumLen == Fine /\ Expect("items", Rec.n, Len(Table)) /\ UNCHANGED s
EnumAt ==
  /\ UNCHANGED s
  /\ IF Rec.k = "other" THEN AnyError
     ELSE IF Rec.n >= 0 /\ Rec.n < Len(Table)
     THEN Fine /\ Expect("shape", Rec.shape, "text") /\ Expect("name", Rec.v, Rec.texts[Rec.n + 1])
     ELSE Error("IndexError")
EnumName ==
  /\ UNCHANGED s
  /\ LET at == {k \in 1..Len(Table) : Table[k][1] = Rec.name} IN
     IF at = {} THEN Error("AttributeError")
     ELSE Fine /\ Expect("shape", Rec.shape, "int") /\ Expect("number", Rec.v, <<Table[CHOOSE k \in at : \A j \in at : k <= j][2]>>)
Vec == Fine /\ Expect("shape", Rec.shape, Rec.want) /\ Expect("value", Rec.v, Rec.q) /\ UNCHANGED s
Churn == Expect("memory left behind", Rec.grown, 0) /\ UNCHANGED s
TInit == l = 1 /\ s = Empty
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "reset" -> Reset [] Rec.op = "thing" -> MakeThing [] Rec.op = "wrap" -> Wrap
              [] Rec.op = "del" -> Del [] Rec.op = "same" -> Same [] Rec.op = "len" -> Length [] Rec.op = "get" -> Get
              [] Rec.op = "iter" -> Iter [] Rec.op = "next" -> NextItem [] Rec.op = "all" -> All
              [] Rec.op = "attr" -> GetAttr [] Rec.op = "set" -> Set [] Rec.op \in {"values", "novalues"} -> Values
              [] Rec.op = "cmp" -> Cmp [] Rec.op = "enumlen" -> EnumLen [] Rec.op = "enum" -> EnumAt
              [] Rec.op = "enumname" -> EnumName [] Rec.op = "vec" -> Vec [] Rec.op = "churn" -> Churn
TSpec == TInit /\ [][TNext]_<<l, s>>
=============================================================================
