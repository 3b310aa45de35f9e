----------------------------- MODULE ReflXml_MC ------------------------------
(* Objects of two versions of a class, saved and loaded in every way.           *)
EXTENDS Integers, Sequences, TLC
LOCAL B == INSTANCE Bytes
CONSTANTS Steps, Wide
VARIABLES objs, doc, n, last
J == INSTANCE JenHash
Hashes == [s \in {<<97>>, <<98>>, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<67>>, <<68>>} |-> J!Wide(s)]
NameHash(s) == Hashes[s]
INSTANCE ReflXml
W8(x) == B!Small(8, x)
FItems == << [nm |-> <<65>>, v |-> W8(0)], [nm |-> <<66>>, v |-> W8(7)] >>
TI == [k |-> "int", n |-> 1]
TF == [k |-> "flags", n |-> 1, items |-> FItems]
TV == [k |-> "vec", n |-> 0, cnt |-> 2, el |-> TI]
Arr(t) == [k |-> "arr", n |-> 0, cnt |-> 2, el |-> t]
F(nm, al, t) == [nm |-> nm, al |-> al, d1 |-> <<>>, d2 |-> <<>>, t |-> t]
K(named, bf, fs) == [cls |-> IF bf = 1 THEN <<68>> ELSE <<67>>, named |-> named, bf |-> bf, w |-> bf, fields |-> fs]
Bf == K(1, 1, <<F(<<97>>, <<>>, [k |-> "bf", n |-> 3, pos |-> 2, sg |-> 1]), F(<<98>>, <<>>, [k |-> "bf", n |-> 2, pos |-> 0, sg |-> 0])>>)
Sub == K(1, 0, <<F(<<97>>, <<>>, TI), F(<<98>>, <<>>, [k |-> "str", n |-> 0])>>)
A(named) == K(named, 0, << F(<<97>>, <<>>, TI), F(<<98>>, <<>>, TF), F(<<99>>, <<>>, TV), F(<<100>>, <<>>, Arr(TV)),
            F(<<101>>, <<>>, Arr([k |-> "class", n |-> 0, c |-> Sub])), F(<<102>>, <<>>, [k |-> "class", n |-> 0, c |-> Bf]),
            F(<<103>>, <<>>, Arr(TF)) >>)
Other == K(1, 0, << F(<<103>>, <<99>>, Arr(TI)), F(<<101>>, <<>>, [k |-> "class", n |-> 0, c |-> Sub]), F(<<97>>, <<>>, [k |-> "str", n |-> 0]) >>)
Vals == { << <<5>>, <<129>>, <<<<1>>, <<255>>>>, <<<<<<1>>, <<2>>>>, <<<<3>>, <<128>>>>>>,
             <<<<<<7>>, <<60, 97>>>>, <<<<255>>, <<>>>>>>, <<<<27>>>>, <<<<1>>, <<128>>>> >>,
          << <<0>>, <<0>>, <<<<0>>, <<0>>>>, <<<<<<0>>, <<0>>>>, <<<<0>>, <<0>>>>>>,
             <<<<<<0>>, <<>>>>, <<<<0>>, <<>>>>>>, <<<<0>>>>, <<<<0>>, <<0>>>> >> }
OVal == << <<<<1>>, <<2>>>>, <<<<9>>, <<65>>>>, <<88>> >>
Init == /\ \E v \in Vals, w \in Vals, m \in {0, 1} : (Wide \/ v = CHOOSE x \in Vals : x # w) /\
             objs = << [c |-> A(m), v |-> v], [c |-> A(m), v |-> w], [c |-> Other, v |-> OVal] >>
        /\ doc = [Node(<<>>) EXCEPT !.c = <<Node(<<114>>)>>] /\ n = 0 /\ last = <<>>
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E s \in {1, 3}, p \in {<<>>, <<1>>}, y \in {1, 2}, own \in BOOLEAN, sa \in BOOLEAN :
                (y = 2 \/ ~sa) /\
                Save(s, p, y, own, sa) /\ last' = <<"save", s, p, y, own>>
           \/ \E s \in 1..3, p \in {<<>>, <<1>>}, y \in {1, 2}, own \in BOOLEAN :
                Load(s, p, y, own) /\ last' = <<"load", s, p, y, own>>
           \/ Rewrite /\ last' = <<"again">>
Spec == Init /\ [][Next]_<<vars, n, last>>
\* what was saved anywhere comes back in an object of the class, whatever it held, and after rewriting
RoundTrip == n = 0 => \A y \in {1, 2}, own, sa \in BOOLEAN, s \in {1} :
   LET o == objs[s]
       d == TLCEval(SavedIn(Node(<<114>>), o.c, o.v, y, own, sa))
   IN  \A w \in Vals : LoadedFrom(d, o.c, w, y, own) = o.v /\ LoadedFrom(TLCEval(Again(d)), o.c, w, y, own) = o.v
\* saving adds, and only below the node
RECURSIVE Within(_, _)
Within(a, b) == /\ a.n = b.n /\ a.t = b.t /\ Len(a.a) <= Len(b.a) /\ SubSeq(b.a, 1, Len(a.a)) = a.a
                /\ Len(a.c) <= Len(b.c) /\ \A k \in 1..Len(a.c) : Within(a.c[k], b.c[k])
Adds == [][last'[1] = "save" => Within(doc, doc')]_<<vars, n, last>>
Idle == Again(Again(doc)) = Again(doc)
Shape == \A s \in 1..3 : Len(objs[s].v) = Len(objs[s].c.fields)
=============================================================================
