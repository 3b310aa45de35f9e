----------------------------- MODULE Reflect_MC -----------------------------
(* A class with one member of every kind, every short text into every member. *)
EXTENDS Reflect
CONSTANTS MaxLen, Deep
VARIABLES step, last
mvars == <<sch, val, step, last>>

W8(x) == B!Small(8, x)
Items == << [nm |-> <<65>>, v |-> W8(0)], [nm |-> <<66>>, v |-> W8(3)],
            [nm |-> <<65, 66>>, v |-> B!Ones(8)] >>
FItems == << [nm |-> <<65>>, v |-> W8(0)], [nm |-> <<66>>, v |-> W8(7)],
             [nm |-> <<65, 66>>, v |-> W8(3)] >>
TInt == [k |-> "int", n |-> 1]
TUInt == [k |-> "uint", n |-> 1]
TEnum == [k |-> "enum", n |-> 1, items |-> Items]
TFlags == [k |-> "flags", n |-> 1, items |-> FItems]
F(nm, al, t) == [nm |-> nm, al |-> al, d1 |-> <<>>, d2 |-> <<>>, t |-> t]
Bf == [cls |-> <<>>, named |-> 1, bf |-> 1, w |-> 2, fields |-> <<
   F(<<97>>, <<>>, [k |-> "bf", n |-> 3, pos |-> 2, sg |-> 1]),
   F(<<98>>, <<>>, [k |-> "bf", n |-> 5, pos |-> 5, sg |-> 0]),
   F(<<99>>, <<>>, [k |-> "bf", n |-> 2, pos |-> 0, sg |-> 1])>>]
C == [cls |-> <<67>>, named |-> 1, bf |-> 0, w |-> 0, fields |-> <<
   F(<<97>>, <<98>>, TInt),          \* its alias is the name of another member
   F(<<98>>, <<>>, TUInt),
   F(<<99>>, <<100>>, [k |-> "bool", n |-> 1]),
   F(<<101>>, <<100>>, TEnum),       \* two members with one alias
   F(<<102>>, <<>>, TFlags),
   F(<<103>>, <<>>, [k |-> "arr", n |-> 0, cnt |-> 2, el |-> TInt]),
   F(<<104>>, <<>>, [k |-> "vec", n |-> 0, cnt |-> 2, el |-> TUInt]),
   F(<<105>>, <<>>, [k |-> "arr", n |-> 0, cnt |-> 1,
                     el |-> [k |-> "vec", n |-> 0, cnt |-> 2, el |-> TInt]]),
   F(<<106>>, <<>>, [k |-> "str", n |-> 0])>>]
V1 == << <<5>>, <<250>>, <<1>>, <<3>>, <<129>>, <<<<1>>, <<255>>>>, <<<<7>>, <<8>>>>,
         <<<<<<128>>, <<2>>>>>>, <<65>> >>
BV1 == << <<174, 3>> >>

Sigma == {32, 45, 48, 49, 57, 65, 66, 120, 124, 44}
Short == UNION {[1..k -> Sigma] : k \in 0..MaxLen}
\* array and vector texts, with every short body of few characters in brackets
Body == UNION {[1..k -> {32, 45, 49, 44, 91, 93}] : k \in 0..Deep}
Wrapped == {<<123>> \o b \o <<125>> : b \in Body} \cup {<<91>> \o b \o <<93>> : b \in Body}
Keys == {[id |-> i, nm |-> <<>>] : i \in 0..9} \cup {[id |-> -1, nm |-> <<c>>] : c \in 96..107}
        \cup {[id |-> -1, nm |-> <<>>]}

Init == /\ step = 0 /\ last = [op |-> "none"]
        /\ \/ sch = C /\ val = V1
           \/ sch = Bf /\ val = BV1
Done(op, key, s, x, sub) == /\ val' = x.v /\ step' = 1 /\ UNCHANGED sch
                            /\ last' = [op |-> op, key |-> key, text |-> s, e |-> x.e, sub |-> sub, old |-> val]
Next == /\ step = 0
        /\ \/ \E i \in 1..Len(sch.fields) : \E s \in Short \cup (IF sch.fields[i].t.k \in {"arr", "vec"} THEN Wrapped ELSE {}) :
                LET key == [id |-> i - 1, nm |-> <<>>]
                IN  Done("set", key, s, SetMember(sch, val, key, s), 0)
           \/ \E key \in Keys : \E s \in {<<49>>, <<>>, <<65>>} :
                Done("key", key, s, SetMember(sch, val, key, s), 0)
           \/ sch.bf = 0 /\ \E key \in Keys : \E sub \in 0..8 : \E s \in {<<49>>, TTrue, TFalse, <<120>>} :
                Done("item", key, s, SetItem(sch, val, key, sub, s), sub)
Spec == Init /\ [][Next]_mvars

I == Resolve(sch, last.key)
T == sch.fields[I].t
\* ---------------------------------------------------------------- properties
\* only the addressed member changes
OthersKeep == step = 1 /\ sch.bf = 0 =>
   \A j \in 1..Len(val) : j # I => val[j] = last.old[j]
BitsKeep == step = 1 /\ sch.bf = 1 =>
   \A b \in 0..15 : (I = 0 \/ b < T.pos \/ b >= T.pos + T.n) => B!Bit(val[1], b) = B!Bit(last.old[1], b)
\* what is refused changes nothing (a boolean becomes false)
RefusedKeeps == step = 1 /\ last.e \in {InvalidFormat, InvalidDestination, EmptyInput} =>
   \/ val = last.old
   \/ T.k \in {"flags"}                         \* the readable flags are set
   \/ last.op # "item" /\ T.k = "bool" /\ val[I] = <<0>>
Unknown == step = 1 /\ I = 0 => last.e = InvalidDestination /\ val = last.old
\* names are preferred to aliases, numbers are positions
Addressing == step = 1 /\ I # 0 => \/ last.key.id = I - 1
                                   \/ last.key.id < 0 /\ sch.fields[I].nm = last.key.nm
                                   \/ /\ last.key.id < 0 /\ sch.fields[I].al = last.key.nm /\ last.key.nm # <<>>
                                      /\ \A j \in 1..Len(sch.fields) : sch.fields[j].nm # last.key.nm
\* numbers are stored as the nearest value the member can hold
RECURSIVE Native(_, _)
Native(ds, base) == IF ds = <<>> THEN 0 ELSE Native(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)]
Number(s0) == LET s == SkipB(s0)
                  neg == s # <<>> /\ s[1] = MINUS
                  p == IF neg THEN Tail(s) ELSE s
                  h == Starts(p, THex)
                  ds == Digits(IF h THEN From(p, 3) ELSE p, IF h THEN 16 ELSE 10)
              IN  [some |-> ds # <<>>, neg |-> neg, x |-> (IF neg THEN -1 ELSE 1) * Native(ds, IF h THEN 16 ELSE 10)]
Signed(w, n) == LET u == w[1] + (IF Len(w) > 1 THEN 256 * w[2] ELSE 0) IN IF u >= TwoTo(n - 1) THEN u - TwoTo(n) ELSE u
Stored == step = 1 /\ last.op = "set" /\ T.k \in {"int", "uint", "bf"} =>
   LET bits == IF T.k = "bf" THEN T.n ELSE 8
       sg == T.k = "int" \/ (T.k = "bf" /\ T.sg = 1)
       raw == IF T.k = "bf" THEN BfGet([T EXCEPT !.sg = 0], val[1]) ELSE val[I]
       got == IF sg THEN Signed(raw, bits) ELSE raw[1]
       q == Number(last.text)
       lo == IF sg THEN -TwoTo(bits - 1) ELSE 0
       hi == IF sg THEN TwoTo(bits - 1) - 1 ELSE TwoTo(bits) - 1
   IN  IF ~q.some THEN last.e = InvalidFormat
       ELSE IF ~sg /\ q.neg THEN last.e = SignMismatch /\ (got - q.x) % TwoTo(bits) = 0
       ELSE IF q.x < lo THEN last.e = OutOfRange /\ got = lo
       ELSE IF q.x > hi THEN last.e = OutOfRange /\ got = hi
       ELSE last.e = None /\ got = q.x
\* printing a value and storing the text gives the value back
RoundTrip == \A i \in 1..Len(sch.fields) :
   LET key == [id |-> i - 1, nm |-> <<>>]
       t == sch.fields[i].t
       known == CASE t.k = "enum" -> Shown(t, val[i]) # <<>>
                  [] t.k = "flags" -> \A b \in 0..7 : B!Bit(val[i], b) = 1 => FindValue(t.items, W8(b), 8, 1) # 0
                  [] t.k = "str" -> val[i] = SkipB(val[i])
                  [] OTHER -> TRUE
   IN  known => LET x == SetMember(sch, val, key, GetMember(sch, val, key)) IN x.e = None /\ x.v = val
\* an item is changed alone, and is read back by its number
ItemAlone == step = 1 /\ last.op = "item" /\ I # 0 =>
   CASE T.k \in {"arr", "vec"} -> /\ \A j \in 1..T.cnt : j # last.sub + 1 => val[I][j] = last.old[I][j]
                                  /\ last.sub >= T.cnt <=> last.e = OutOfRange
     [] T.k = "flags" -> /\ \A b \in 0..7 : b # last.sub => B!Bit(val[I], b) = B!Bit(last.old[I], b)
                         /\ last.e = None => GetItem(sch, val, last.key, last.sub) = last.text
     [] OTHER -> last.e = InvalidDestination
=============================================================================
