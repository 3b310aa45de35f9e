----------------------------- MODULE ReflBin_MC -----------------------------
(* Every short sequence of saves and loads of objects of several versions of a *)
(* class, with every combination of a few values.                              *)
EXTENDS ReflBin
CONSTANTS Vals, Steps
Toy(s) == <<s[1], 1, 2, 3>>
VARIABLES saved,   \* what was saved and not loaded yet: class and members
          err,     \* result of the last load
          step
mvars == <<objs, file, pos, saved, err, step>>
LOCAL W(n, x) == [k \in 1..n |-> IF k = 1 THEN x % 256 ELSE IF k = 2 THEN (x \div 256) % 256 ELSE 0]
F(nm, t) == [nm |-> nm, t |-> t]
I2 == [k |-> "int", n |-> 2]
U2 == [k |-> "uint", n |-> 2]
In1 == [cls |-> <<73>>, bf |-> 0, named |-> 1, fields |-> <<F(<<112>>, [k |-> "uint", n |-> 1]), F(<<113>>, I2)>>]
In2 == [cls |-> <<73>>, bf |-> 0, named |-> 1, fields |-> <<F(<<113>>, I2)>>]           \* another version of In1
BfC == [cls |-> <<66>>, bf |-> 1, w |-> 2, fields |-> <<>>]
Cl(c) == [k |-> "class", n |-> 0, c |-> c]
A == [cls |-> <<67>>, bf |-> 0, named |-> 1, fields |->
       <<F(<<97>>, I2), F(<<98>>, Cl(In1)), F(<<99>>, [k |-> "arr", cnt |-> 2, el |-> Cl(In1)]), F(<<100>>, [k |-> "str"])>>]
\* members in another order, one renamed, a bit field class for the string
P == [cls |-> <<67>>, bf |-> 0, named |-> 1, fields |->
       <<F(<<100>>, [k |-> "str"]), F(<<99>>, [k |-> "arr", cnt |-> 2, el |-> Cl(In1)]), F(<<97>>, I2), F(<<120>>, Cl(In1))>>]
\* nested classes of another version
N == [cls |-> <<67>>, bf |-> 0, named |-> 1, fields |->
       <<F(<<98>>, Cl(In2)), F(<<97>>, I2), F(<<121>>, Cl(BfC)), F(<<99>>, [k |-> "arr", cnt |-> 2, el |-> Cl(In2)])>>]
\* fewer members
S == [cls |-> <<67>>, bf |-> 0, named |-> 1, fields |-> <<F(<<97>>, I2)>>]
\* another class
D == [cls |-> <<68>>, bf |-> 0, named |-> 1, fields |-> A.fields]
InV(x, y) == <<W(1, x), W(2, y)>>
ValOf(c, x, y) ==
  CASE c = A \/ c = D -> <<W(2, x), InV(y, x), <<InV(x, y), InV(y, y)>>, [k \in 1..(y % 4) |-> x % 256]>>
    [] c = P -> <<[k \in 1..(y % 4) |-> x % 256], <<InV(x, y), InV(y, y)>>, W(2, x), InV(y, x)>>
    [] c = N -> <<<<W(2, y)>>, W(2, x), <<W(2, x)>>, <<<<W(2, x)>>, <<W(2, y)>>>>>>
    [] c = S -> <<W(2, x)>>
Classes == {A, P, N, S, D}
Init == /\ file = <<>> /\ pos = 0 /\ saved = <<>> /\ err = 0 /\ step = 0
        /\ \E c \in Classes : \E x \in Vals : \E y \in Vals : objs = <<[c |-> A, v |-> ValOf(A, x, y)], [c |-> c, v |-> ValOf(c, 3, 5)]>>
Set(s) == \E x \in Vals : \E y \in Vals : objs' = [objs EXCEPT ![s].v = ValOf(objs[s].c, x, y)]
          /\ UNCHANGED <<file, pos, saved, err>>
DoSave(s) == Save(s) /\ saved' = Append(saved, [c |-> objs[s].c, v |-> objs[s].v]) /\ UNCHANGED err
DoLoad(s) == /\ saved # <<>> /\ Load(s)
             /\ err' = Decoded(objs[s].c, objs[s].v, file, pos).e
             /\ saved' = IF saved[1].c.cls = objs[s].c.cls THEN Tail(saved) ELSE saved
Next == /\ step < Steps /\ step' = step + 1
        /\ Set(1) \/ \E s \in 1..2 : DoSave(s) \/ DoLoad(s)
Spec == Init /\ [][Next]_mvars

\* a reader that consumed everything is at the end, and only then
AtEnd == (pos = Len(file)) <=> (saved = <<>>)
Idx(c, nm) == LET X == {i \in 1..Len(c.fields) : c.fields[i].nm = nm} IN IF X = {} THEN 0 ELSE CHOOSE i \in X : TRUE
LoadedRight ==
  [][\A s \in 1..2 : DoLoad(s) =>
       LET f == saved[1]  c == objs[s].c  v == objs[s].v  w == objs'[s].v
       IN  /\ (f.c = c => w = f.v /\ err' = 0)
           /\ (f.c.cls # c.cls => w = v /\ pos' = pos /\ err' = 1)
           /\ (f.c.cls = c.cls /\ Len(f.c.fields) # Len(c.fields) => w = v /\ err' = 1)
           /\ (f.c.cls = c.cls /\ Len(f.c.fields) = Len(c.fields) =>
                \A i \in 1..Len(c.fields) :
                  LET j == Idx(f.c, c.fields[i].nm)
                  IN  IF j = 0 THEN w[i] = v[i]
                      ELSE f.c.fields[j].t = c.fields[i].t => w[i] = f.v[j])
    ]_mvars
\* only the object loaded into changes
OneObject == [][\A s \in 1..2 : DoLoad(s) /\ ~DoLoad(3 - s) => objs'[3 - s] = objs[3 - s]]_mvars
=============================================================================
