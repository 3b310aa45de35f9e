------------------------------- MODULE ReflBin -------------------------------
(* Saving reflected objects in the binary form and loading them               *)
(* (datas/reflector_io.cpp, ReflectorBinUtil).  A saved object is the hash of   *)
(* its class and a chunk: a byte count and that many bytes.  The chunk holds     *)
(* the number of members and, per member, the hash of its name and a chunk with  *)
(* its value; the value of a nested object is such a class chunk again.  Loading *)
(* goes by name: members the class does not know are skipped, members the file   *)
(* does not have stay as they are.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL B == INSTANCE Bytes
CONSTANT NameHash(_)   \* four bytes
LOCAL V == INSTANCE Base128 WITH G <- 7, N <- 8, stream <- <<>>, pending <- <<>>
VARIABLES objs,     \* slot -> [c: class, v: value of each member]
          file,     \* the bytes of the stream
          pos       \* where the reader is (bytes in front of it)
vars == <<objs, file, pos>>

\* ------------------------------------------------------------------- encoding
LOCAL BitsOf(b) == [i \in 0..63 |-> B!Bit(b, i)]
LOCAL WordOf(w) == B!FromBits(8, LAMBDA i : w[i])
RECURSIVE VarLen(_)
VarLen(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o VarLen(n \div 128)
Chunk(b) == VarLen(Len(b)) \o b
RECURSIVE Flat(_)
LOCAL Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
LOCAL Signed(t) == t.k \in {"int", "enum"}
LOCAL Number(t) == t.k \in {"int", "enum", "uint", "flags"}
EncNum(n, sg, v) == IF n = 1 THEN v
                    ELSE IF sg THEN V!EncodeS(BitsOf(B!SExt(v, 8)))
                    ELSE V!EncodeU(BitsOf(B!ZExt(v, 8)))
RECURSIVE EncVal(_, _), EncClass(_, _)
EncVal(t, v) ==
  CASE Number(t) -> EncNum(t.n, Signed(t), v)
    [] t.k \in {"bool", "flt"} -> v
    [] t.k = "str" -> B!Small(4, Len(v)) \o v
    [] t.k \in {"arr", "vec"} -> Flat([i \in 1..t.cnt |-> EncVal(t.el, v[i])])
    [] t.k = "class" -> IF t.c.bf = 1 THEN EncNum(t.c.w, FALSE, v[1]) ELSE EncClass(t.c, v)
EncClass(c, v) ==
  Chunk(VarLen(Len(c.fields)) \o
        Flat([i \in 1..Len(c.fields) |-> NameHash(c.fields[i].nm) \o Chunk(EncVal(c.fields[i].t, v[i]))]))
ClassHash(c) == IF c.named = 1 THEN NameHash(c.cls) ELSE <<0, 0, 0, 0>>   \* classes without names have none
Encoded(c, v) == ClassHash(c) \o EncClass(c, v)

\* ------------------------------------------------------------------- decoding
\* b: the bytes, p: how many of them lie in front
LOCAL At(b, p, n) == SubSeq(b, p + 1, p + n)
RECURSIVE LenAt(_, _, _, _)
LOCAL LenAt(b, p, mul, acc) ==
  LET x == b[p + 1]
  IN  IF x < 128 THEN [n |-> acc + mul * x, p |-> p + 1]
      ELSE LenAt(b, p + 1, mul * 128, acc + mul * (x - 128))
CountAt(b, p) == LenAt(b, p, 1, 0)
LOCAL Take(b, p) == IF Len(b) - p < 9 THEN At(b, p, Len(b) - p) ELSE At(b, p, 9)
DecNum(n, sg, b, p) ==
  IF n = 1 THEN [e |-> 0, v |-> At(b, p, 1), p |-> p + 1]
  ELSE LET x == Take(b, p)
       IN  [e |-> 0, v |-> B!Trunc(WordOf(IF sg THEN V!DecodeS(x) ELSE V!DecodeU(x)), n),
            p |-> p + V!FirstLen(x, 1)]
FieldOf(c, h) == LET S == {i \in 1..Len(c.fields) : NameHash(c.fields[i].nm) = h}
                 IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE DecVal(_, _, _, _), DecItems(_, _, _, _, _), DecClass(_, _, _, _), DecFields(_, _, _, _, _)
DecVal(t, old, b, p) ==
  CASE Number(t) -> DecNum(t.n, Signed(t), b, p)
    [] t.k \in {"bool", "flt"} -> [e |-> 0, v |-> At(b, p, t.n), p |-> p + t.n]
    [] t.k = "str" -> LET n == b[p + 1] + 256 * b[p + 2] + 65536 * b[p + 3]
                      IN  [e |-> 0, v |-> At(b, p + 4, n), p |-> p + 4 + n]
    [] t.k \in {"arr", "vec"} -> DecItems(t, old, b, p, 1)
    [] t.k = "class" -> IF t.c.bf = 1
                        THEN LET r == DecNum(t.c.w, FALSE, b, p) IN [r EXCEPT !.v = <<r.v>>]
                        ELSE DecClass(t.c, old, b, p)
DecItems(t, old, b, p, i) ==
  IF i > t.cnt THEN [e |-> 0, v |-> old, p |-> p]
  ELSE LET r == DecVal(t.el, old[i], b, p)
           now == [old EXCEPT ![i] = r.v]
       IN  IF r.e # 0 THEN [e |-> 1, v |-> now, p |-> r.p]
           ELSE DecItems(t, now, b, r.p, i + 1)
\* e = 1: something of the file did not fit and was skipped
DecClass(c, old, b, p) ==
  LET sz == CountAt(b, p)
      n == CountAt(b, sz.p)
  IN  IF n.n # Len(c.fields) THEN [e |-> 1, v |-> old, p |-> sz.p + sz.n]
      ELSE DecFields(c, old, b, n.p, n.n)
DecFields(c, old, b, p, left) ==
  IF left = 0 THEN [e |-> 0, v |-> old, p |-> p]
  ELSE LET h == At(b, p, 4)
           sz == CountAt(b, p + 4)
           next == sz.p + sz.n
           i == FieldOf(c, h)
       IN  IF i = 0 THEN DecFields(c, old, b, next, left - 1)
           ELSE LET r == DecVal(c.fields[i].t, old[i], b, sz.p)
                    rest == DecFields(c, [old EXCEPT ![i] = r.v], b,
                                      IF r.e = 0 THEN r.p ELSE next, left - 1)
                IN  [rest EXCEPT !.e = IF r.e # 0 THEN 1 ELSE @]
Decoded(c, old, b, p) ==
  IF At(b, p, 4) # ClassHash(c) THEN [e |-> 1, v |-> old, p |-> p]
  ELSE DecClass(c, old, b, p + 4)

\* -------------------------------------------------------------------- actions
Save(s) == /\ file' = file \o Encoded(objs[s].c, objs[s].v)
           /\ UNCHANGED <<objs, pos>>
Load(s) == LET r == Decoded(objs[s].c, objs[s].v, file, pos)
           IN  /\ objs' = [objs EXCEPT ![s].v = r.v]
               /\ pos' = r.p /\ UNCHANGED file
=============================================================================
