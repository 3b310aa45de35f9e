----------------------------- MODULE PyWrap_MC -----------------------------
(* A skeleton that is owned, one whose list of bones is made anew, a list that   *)
(* makes its items anew: references taken and let go in all orders.  What is    *)
(* owned ends once and only when nobody refers to it, loops give every item.    *)
EXTENDS PyWrap, TLC
CONSTANTS Hs, MaxObj
VARIABLES s, ended, seen
vars == <<s, ended, seen>>
T(k, ref, items, fresh) == [kind |-> k, name |-> <<k>>, a |-> 0, b |-> 5, dur |-> 0, ref |-> ref, fresh |-> fresh,
                            items |-> items, v |-> [x \in 1..16 |-> x]]
World == <<T(Bone, 0, <<>>, 0), T(Bone, 1, <<>>, 0), T(Bones, 0, <<1, 2>>, 1), T(Skel, 3, <<>>, 1), T(Skels, 0, <<4>>, 0)>>
Init == s = [Empty EXCEPT !.w = World] /\ ended = <<>> /\ seen = <<>>
Free == {x \in Hs : s.h[x] = 0}
Held == {x \in Hs : s.h[x] # 0}
Room == Len(s.o) < MaxObj
Wrap == /\ Room /\ \E x \in Free : \/ s' = Put(s, x, 5, 0)
                                   \/ /\ ~\E k \in DOMAIN s.o : s.o[k].t = 4 /\ s.o[k].own = 1
                                      /\ s' = Put(s, x, 4, 1)
        /\ seen' = Append(seen, <<>>) /\ UNCHANGED ended
Get == /\ Room /\ \E x \in Free, g \in Held : LET i == s.h[g] IN
            /\ IsList(Thing(s, i)) /\ \E n \in 0..1 : Has(s, i, n) /\ s' = Item(s, x, i, n)
       /\ seen' = Append(seen, <<>>) /\ UNCHANGED ended
Lead == /\ Room /\ \E x \in Free, g \in Held : \E n \in Others : LET i == s.h[g] IN
            /\ Attr(s, i, n).shape \notin {"error", "none"} /\ s' = Led(s, x, i, n)
        /\ seen' = Append(seen, <<>>) /\ UNCHANGED ended
Loops == /\ \E x \in Free, g \in Held : LET i == s.h[g] IN
              /\ IsList(Thing(s, i)) /\ s' = Loop([s EXCEPT !.h[x] = i], i, 0)
              /\ seen' = [seen EXCEPT ![i] = <<>>]
         /\ UNCHANGED ended
Next1 == /\ Room /\ \E x \in Free, g \in Held : LET i == s.h[g] IN
              /\ IsList(Thing(s, i)) /\ Has(s, i, s.o[i].it)
              /\ s' = Loop(Item(s, x, i, s.o[i].it), i, s.o[i].it + 1)
              /\ seen' = Append([seen EXCEPT ![i] = Append(@, s'.o[Len(s'.o)].t)], <<>>)
         /\ UNCHANGED ended
Let == \E x \in Held : /\ ended' = ended \o [k \in DOMAIN DropEnds(s, x) |-> s.h[x]]
                       /\ s' = Drop(s, x) /\ UNCHANGED seen
Next == Wrap \/ Get \/ Lead \/ Loops \/ Next1 \/ Let
Spec == Init /\ [][Next]_vars
\* objects that own ended once each, and exactly those nobody refers to
EndsOnce == \A k \in DOMAIN s.o :
  Cardinality({j \in DOMAIN ended : ended[j] = k}) = (IF s.o[k].own # 0 /\ Refs(s, k) = 0 THEN 1 ELSE 0)
\* what is made anew is of one object only; parents and items of the user's lists are borrowed
OwnedRight == \A k \in DOMAIN s.o : /\ s.o[k].own = 1 => s.o[k].t = 4
                                    /\ s.o[k].t = 3 => s.o[k].own = 2
\* a loop has given the first items, in order
LoopInOrder == \A k \in DOMAIN s.o : IsList(Thing(s, k)) => seen[k] = SubSeq(Thing(s, k).items, 1, s.o[k].it)
=============================================================================
