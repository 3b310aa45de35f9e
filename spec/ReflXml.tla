------------------------------- MODULE ReflXml -------------------------------
(* Saving reflected objects in XML trees and loading them                        *)
(* (datas/reflector_xml.cpp). Layout 1 holds every member in a node; layout 2     *)
(* holds single values in attributes and parts of values in attributes of nodes. *)
(* A node is [n: name, a: attributes (name and value), t: text, c: nodes].       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
LOCAL B == INSTANCE Bytes
LOCAL R == INSTANCE Reflect WITH sch <- <<>>, val <- <<>>
CONSTANT NameHash(_)   \* four bytes
VARIABLES objs,     \* slot -> [c: class, v: value of each member]
          doc       \* the root of the tree
vars == <<objs, doc>>
Node(n) == [n |-> n, a |-> <<>>, t |-> <<>>, c |-> <<>>]

(* ---------------------------------------------------------------- names *)
MINUS == 45
LOCAL HexD(d) == IF d < 10 THEN 48 + d ELSE 55 + d
LOCAL HexOf(h) == LET ds == [i \in 1..8 |-> LET b == h[4 - ((i - 1) \div 2)] IN HexD(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
                      nz == {i \in 1..8 : ds[i] # 48}
                  IN  IF nz = {} THEN <<48>> ELSE SubSeq(ds, CHOOSE i \in nz : \A j \in nz : i <= j, 8)
HName(h) == <<104, 58>> \o HexOf(h)                         \* h:1A2B
Hashed(s) == Len(s) >= 2 /\ s[1] = 104 /\ s[2] = 58
LOCAL Hash8(s) == LET ds == R!Digits(SubSeq(s, 3, Len(s)), 16)
                  IN  B!Trunc(R!Mag(ds, 16, B!Zero(16)), 4)
MemberName(c, f) == IF c.named = 1 THEN f.nm ELSE HName(NameHash(f.nm))
ClassHash(c) == IF c.named = 1 THEN NameHash(c.cls) ELSE <<0, 0, 0, 0>>
ClassName(c) == IF c.named = 1 THEN c.cls ELSE HName(<<0, 0, 0, 0>>)
IsClass(c, s) == IF Hashed(s) THEN Hash8(s) = ClassHash(c) ELSE c.named = 1 /\ s = c.cls
\* the member told by a name, 0 when there is none; names go before aliases
MemberOf(c, s) ==
  IF ~Hashed(s) THEN R!Resolve(c, [id |-> -1, nm |-> s])
  ELSE LET h == Hash8(s)
           byname == {i \in 1..Len(c.fields) : NameHash(c.fields[i].nm) = h}
           byalias == {i \in 1..Len(c.fields) : c.fields[i].al # <<>> /\ NameHash(c.fields[i].al) = h}
           least(S) == CHOOSE i \in S : \A j \in S : i <= j
       IN  IF byname # {} THEN least(byname) ELSE IF byalias # {} THEN least(byalias) ELSE 0
LOCAL Key(i) == [id |-> i - 1, nm |-> <<>>]
LOCAL Numbered(n, s) == n \o <<MINUS>> \o R!DecN(s)
LOCAL Axis == <<<<120>>, <<121>>, <<122>>, <<119>>>>

(* --------------------------------------------------------------- saving *)
RECURSIVE Nodes1(_, _)
Nodes1(c, v) == [i \in 1..Len(c.fields) |->
  LET t == c.fields[i].t
      n == Node(MemberName(c, c.fields[i]))
  IN  IF t.k = "class" THEN [n EXCEPT !.c = Nodes1(t.c, v[i])]
      ELSE IF t.k = "arr" /\ t.el.k = "class"
        THEN [n EXCEPT !.c = [s \in 1..t.cnt |-> [Node(<<105, 58>> \o R!DecN(s - 1)) EXCEPT !.c = Nodes1(t.el.c, v[i][s])]]]
      ELSE [n EXCEPT !.t = R!GetMember(c, v, Key(i))]]

LOCAL Cat(ss) == LET RECURSIVE C(_)
                     C(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o C(i + 1)
                 IN  C(1)
LOCAL VecAttrs(t, v) == [a \in 1..t.cnt |-> <<Axis[a], R!Shown(t.el, v[a])>>]
\* a flag number beyond the type reads as nothing
LOCAL FlagAttrs(t, v) == [e \in 1..Len(t.items) |->
  <<t.items[e].nm, IF t.items[e].v[1] < 8 * t.n THEN R!FlagText(v, t.items[e].v[1]) ELSE <<>>>>]
Single == {"bool", "enum", "flt", "int", "uint", "bf"}
RECURSIVE Parts2(_, _, _)
\* what member i adds: attributes and nodes
LOCAL Part2(c, v, i, sa) ==
  LET t == c.fields[i].t
      name == MemberName(c, c.fields[i])
      n == Node(name)
      each(f(_)) == [a |-> <<>>, c |-> [s \in 1..t.cnt |-> f(s)]]
      plain == [a |-> <<>>, c |-> <<[n EXCEPT !.t = R!GetMember(c, v, Key(i))]>>]
      inner(m, cc, vv) == LET p == TLCEval(Parts2(cc, vv, sa)) IN [m EXCEPT !.a = p.a, !.c = p.c]
  IN  CASE t.k \in Single \/ (t.k = "str" /\ sa) -> [a |-> <<<<name, R!GetMember(c, v, Key(i))>>>>, c |-> <<>>]
        [] t.k = "vec" -> [a |-> <<>>, c |-> <<[n EXCEPT !.a = VecAttrs(t, v[i])]>>]
        [] t.k = "flags" -> [a |-> <<>>, c |-> <<[n EXCEPT !.a = FlagAttrs(t, v[i])]>>]
        [] t.k = "class" -> [a |-> <<>>, c |-> <<inner(n, t.c, v[i])>>]
        [] t.k = "arr" ->
             (CASE t.el.k = "class" -> each(LAMBDA s : inner(Node(Numbered(name, s - 1)), t.el.c, v[i][s]))
                [] t.el.k \in Single -> [a |-> [s \in 1..t.cnt |-> <<Numbered(name, s - 1), R!Shown(t.el, v[i][s])>>], c |-> <<>>]
                [] t.el.k = "vec" -> each(LAMBDA s : [Node(Numbered(name, s - 1)) EXCEPT !.a = VecAttrs(t.el, v[i][s])])
                [] t.el.k = "flags" -> each(LAMBDA s : [Node(Numbered(name, s - 1)) EXCEPT !.a = FlagAttrs(t.el, v[i][s])])
                [] OTHER -> plain)
        [] OTHER -> plain
Parts2(c, v, sa) == LET ps == TLCEval([i \in 1..Len(c.fields) |-> Part2(c, v, i, sa)])
                    IN  [a |-> TLCEval(Cat([i \in 1..Len(ps) |-> ps[i].a])), c |-> TLCEval(Cat([i \in 1..Len(ps) |-> ps[i].c]))]

\* the node n with the object added, layout 1 or 2
Added(n, c, v, layout, sa) ==
  IF layout = 1 THEN [n EXCEPT !.c = @ \o Nodes1(c, v)]
  ELSE LET p == TLCEval(Parts2(c, v, sa)) IN [n EXCEPT !.a = @ \o p.a, !.c = @ \o p.c]
SavedIn(n, c, v, layout, own, sa) ==
  IF own THEN [n EXCEPT !.c = Append(@, Added(Node(ClassName(c)), c, v, layout, sa))]
  ELSE Added(n, c, v, layout, sa)

(* -------------------------------------------------------------- loading *)
\* every node in turn changes the value (folds evaluate each step once)
RECURSIVE Load1(_, _, _)
LOCAL Number(s) == LET ds == R!Digits(s, 10)
                   IN  IF (s # <<>> /\ s[1] = MINUS) \/ Len(ds) > 6 THEN 999999 ELSE R!Num(ds, 0)
LOCAL Item1(c, cnt, v, n) ==
  LET s == Number(SubSeq(n.n, 3, Len(n.n)))
  IN  IF s < cnt THEN [v EXCEPT ![s + 1] = Load1(c, v[s + 1], n.c)] ELSE v
LOCAL Node1(c, v, n) ==
  LET i == MemberOf(c, n.n)
      t == c.fields[i].t
  IN  IF i = 0 THEN v
      ELSE IF t.k = "class" THEN [v EXCEPT ![i] = Load1(t.c, v[i], n.c)]
      ELSE IF t.k = "arr" /\ t.el.k = "class"
        THEN [v EXCEPT ![i] = FoldLeft(LAMBDA w, m : Item1(t.el.c, t.cnt, w, m), v[i], n.c)]
      ELSE R!SetMember(c, v, Key(i), n.t).v
Load1(c, v, ns) == FoldLeft(LAMBDA w, n : Node1(c, w, n), v, ns)

\* name and number, none: -1
Parted(s) == LET ms == {i \in 1..Len(s) : s[i] = MINUS}
             IN  IF ms = {} THEN [n |-> s, i |-> -1]
                 ELSE LET m == CHOOSE m \in ms : \A j \in ms : m <= j
                      IN  [n |-> SubSeq(s, 1, m - 1), i |-> Number(SubSeq(s, m + 1, Len(s)))]
LOCAL IsOn(x) == x # <<>> /\ x[1] \in {49, 116, 84, 121, 89}
FlagsOn(as) == LET on == SelectSeq(as, LAMBDA x : IsOn(x[2]))
               IN  IF on = <<>> THEN R!TNull ELSE R!Join([k \in 1..Len(on) |-> on[k][1]], <<R!BAR>>)
AxisOf(s) == IF \E k \in 1..4 : Axis[k] = SubSeq(s, 1, 1) THEN (CHOOSE k \in 1..4 : Axis[k] = SubSeq(s, 1, 1)) - 1 ELSE 999999
SetIn(c, v, i, at, text) == (IF at < 0 THEN R!SetMember(c, v, Key(i), text) ELSE R!SetItem(c, v, Key(i), at, text)).v
RECURSIVE Load2(_, _, _)
LOCAL Attr2(c, v, a) ==
  LET p == Parted(a[1])
      i == MemberOf(c, p.n)
  IN  IF i = 0 THEN v ELSE SetIn(c, v, i, p.i, a[2])
LOCAL Vec2(c, v, i, at, a) ==
  LET e == AxisOf(a[1])
  IN  (IF at < 0 THEN R!SetItem(c, v, Key(i), e, a[2]) ELSE R!SetElement(c, v, Key(i), at, e, a[2])).v
LOCAL Node2(c, v, n) ==
  LET p == Parted(n.n)
      i == MemberOf(c, p.n)
      t == c.fields[i].t
      q == R!SubClass(c, v, Key(i), IF p.i < 0 THEN 0 ELSE p.i)
      el == IF t.k = "arr" THEN t.el.k ELSE t.k
  IN  IF i = 0 THEN v
      ELSE IF R!IsSub(c, Key(i))
        THEN IF ~q.ok THEN v
             ELSE IF q.many THEN [v EXCEPT ![i][p.i + (IF p.i < 0 THEN 2 ELSE 1)] = Load2(q.c, q.v, n)]
             ELSE [v EXCEPT ![i] = Load2(q.c, q.v, n)]
      ELSE IF n.a = <<>> THEN R!SetMember(c, v, Key(i), n.t).v
      ELSE IF el = "vec" THEN FoldLeft(LAMBDA w, a : Vec2(c, w, i, p.i, a), v, n.a)
      ELSE IF el = "flags" THEN SetIn(c, v, i, p.i, FlagsOn(n.a))
      ELSE v
Load2(c, v, n) == FoldLeft(LAMBDA w, m : Node2(c, w, m), FoldLeft(LAMBDA w, a : Attr2(c, w, a), v, n.a), n.c)

\* the node an object is loaded from; 0: there is none, -1: the node itself
Found(n, c, own) == IF ~own THEN -1
                    ELSE LET S == {k \in 1..Len(n.c) : IsClass(c, n.c[k].n)}
                         IN  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
LoadedFrom(n, c, v, layout, own) ==
  LET k == Found(n, c, own)
      m == IF k = -1 THEN n ELSE n.c[k]
  IN  IF k = 0 THEN v ELSE IF layout = 1 THEN Load1(c, v, m.c) ELSE Load2(c, v, m)

(* ------------------------------------------------------- the tree itself *)
RECURSIVE At(_, _), Put(_, _, _)
At(n, path) == IF path = <<>> THEN n ELSE At(n.c[path[1]], Tail(path))
Put(n, path, m) == IF path = <<>> THEN m ELSE [n EXCEPT !.c[path[1]] = Put(n.c[path[1]], Tail(path), m)]
\* written as text and read: text of blanks only is lost
RECURSIVE Again(_)
LOCAL Spaces(s) == \A i \in 1..Len(s) : s[i] \in {9, 10, 13, 32}
Again(n) == [n EXCEPT !.t = IF Spaces(@) THEN <<>> ELSE @, !.c = [k \in 1..Len(n.c) |-> Again(n.c[k])]]

Save(s, path, layout, own, sa) ==
  /\ doc' = Put(doc, path, SavedIn(At(doc, path), objs[s].c, objs[s].v, layout, own, sa))
  /\ UNCHANGED objs
Load(s, path, layout, own) ==
  /\ objs' = [objs EXCEPT ![s].v = LoadedFrom(At(doc, path), objs[s].c, objs[s].v, layout, own)]
  /\ UNCHANGED doc
Rewrite == doc' = Again(doc) /\ UNCHANGED objs
=============================================================================
