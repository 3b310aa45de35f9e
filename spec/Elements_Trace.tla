--------------------------- MODULE Elements_Trace ----------------------------
EXTENDS Elements, TraceBase
VARIABLES l, h, lists
Rec == Trace[l]
H == 1..6                                 \* the last three are handles of constant objects
K == 1..4                                 \* lists of objects, of owned ones, of shared ones, of numbers
Give(x, new) == [h EXCEPT ![x] = new]
ToHandle(new) == <<Give(Rec.h, new), lists, Dying(h[Rec.h])>>
Same == <<h, lists, {}>>
Step == CASE Rec.op = "reset" -> <<[x \in H |-> Nothing], [k \in K |-> <<>>], {}>>
  [] Rec.op = "new" -> ToHandle([id |-> Rec.id, own |-> TRUE])
  [] Rec.op = "borrow" -> ToHandle([id |-> Rec.id, own |-> FALSE])
  [] Rec.op = "move" -> <<[Give(Rec.h, h[Rec.g]) EXCEPT ![Rec.g] = Nothing], lists, Dying(h[Rec.h])>>
  [] Rec.op = "drop" -> ToHandle(Nothing)
  [] Rec.op = "unstore" -> <<h, lists, {Rec.id}>>
  [] Rec.op = "push" -> <<h, [lists EXCEPT ![Rec.k] = Append(@, Rec.id)], {}>>
  [] Rec.op = "erase" -> <<h, [lists EXCEPT ![Rec.k] = EraseAt(@, Rec.i)], IF Rec.k = 4 THEN {} ELSE {lists[Rec.k][Rec.i]}>>
  [] Rec.op = "at" -> IF Rec.i <= Len(lists[Rec.k])
                      THEN (IF Rec.k = 4 THEN Same ELSE ToHandle([id |-> lists[Rec.k][Rec.i], own |-> FALSE])) ELSE Same
  [] OTHER -> Same
Told == CASE Rec.op = "at" -> IF Rec.i <= Len(lists[Rec.k]) THEN Expect("item", <<Rec.err, Rec.got>>, <<0, lists[Rec.k][Rec.i]>>)
                              ELSE Expect("error", Rec.err, 1)
  [] Rec.op = "iter" -> Expect("items met", Rec.got, lists[Rec.k])
  [] Rec.op = "size" -> Expect("size", Rec.got, Len(lists[Rec.k]))
  [] Rec.op = "whole" -> Expect("list of its own", <<Rec.got, Rec.gone>>, <<Rec.ids, IF Rec.own = 1 THEN Rec.ids ELSE <<>>>>)
  [] Rec.op = "call" -> Expect("answer", Rec.got, Answer(Rec.cls, Rec.type, Rec.call, Items(Rec.over)
       ))
  [] Rec.op = "rate" -> Expect("setting of the rate", Rec.got, IF Rec.over = 1 THEN 0 ELSE 2)
  [] Rec.op = "resample" -> Expect("resampled", Rec.got, [i \in 1..Len(Rec.vs) |-> Resampled(Rec.how, Rec.lo, Rec.hi, Rec.vs[i])])
  [] OTHER -> TRUE
TInit == l = 1 /\ h = [x \in H |-> Nothing] /\ lists = [k \in K |-> <<>>]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ Told
         /\ LET s == Step
            IN  /\ Expect("handles", Rec.hs, [x \in H |-> s[1][x].id])
                /\ Expect("deleted, each once", <<Items(Rec.dead), Len(Rec.dead)>>, <<s[3], Cardinality(s[3])>>)
                /\ h' = s[1] /\ lists' = s[2]
TSpec == TInit /\ [][TNext]_<<l, h, lists>>
=============================================================================
