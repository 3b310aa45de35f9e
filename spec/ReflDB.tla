------------------------------- MODULE ReflDB --------------------------------
(* Databases of reflected classes and enumerations (datas/reflector_io.hpp):   *)
(* what a class is described by, the saved form, several databases one behind   *)
(* another in a stream, and what loading makes of them.                         *)
(*                                                                              *)
(* A class: h hash, t the descriptions of its members (16 bytes each), nm names *)
(* of members, cn its name, al aliases, ah hashes of aliases, ds descriptions.  *)
(* What may be missing is a sequence of nothing or of one item. An enumeration: *)
(* h, nm names and v values of the enumerators, cn its name.                    *)
EXTENDS Integers, Sequences
LOCAL B == INSTANCE Bytes

CONSTANT NameHash(_)

VARIABLES dbs,     \* the databases of the program: [c |-> classes, e |-> enums]
          file,    \* the stream
          pos      \* of the reader
vars == <<dbs, file, pos>>

Empty == [c |-> <<>>, e |-> <<>>]

\* ------------------------------------------------------------- saved form
\* bytes that are not there read as 0, places and sizes of 2^24 and more as 2^24
At(b, o) == IF o < Len(b) THEN b[o + 1] ELSE 0
U32(b, o) == IF At(b, o + 3) > 0 THEN 16777216
             ELSE At(b, o) + 256 * At(b, o + 1) + 65536 * At(b, o + 2)
Count(b, o) == IF U32(b, o) > Len(b) THEN 0 ELSE U32(b, o)
RECURSIVE TextAt(_, _)
TextAt(b, o) == IF At(b, o) = 0 THEN <<>> ELSE <<b[o + 1]>> \o TextAt(b, o + 1)
Part(b, o, n) == IF o + n > Len(b) THEN <<>> ELSE SubSeq(b, o + 1, o + n)
Magic == <<82, 70, 68, 66>>                                     \* RFDB
Version == 1000
HeaderSize == 32
EntrySize == 56

\* the class with table entry at o; b is what follows the header
ClassAt(b, o) ==
  LET n == Count(b, o + 4)
      types == U32(b, o + 32)
      names == U32(b, o + 36)
      cname == U32(b, o + 40)
      alias == U32(b, o + 44)
      ahash == U32(b, o + 48)
      descs == U32(b, o + 52)
      Desc(k) == IF U32(b, k) = 0 THEN <<>> ELSE Part(b, U32(b, k), U32(b, k + 4))
  IN  [h |-> Part(b, o, 4),
       t |-> [i \in 1..n |-> Part(b, types + (16 * (i - 1)), 16)],
       nm |-> IF names = 0 THEN <<>>
              ELSE <<[i \in 1..n |-> TextAt(b, U32(b, names + (4 * (n + i - 1))))]>>,
       cn |-> IF cname = 0 THEN <<>> ELSE <<TextAt(b, cname)>>,
       al |-> IF alias = 0 THEN <<>>
              ELSE <<[i \in 1..n |-> LET k == U32(b, alias + (4 * (n + i - 1)))
                                     IN  IF k = 0 THEN <<>> ELSE <<TextAt(b, k)>>]>>,
       ah |-> IF ahash = 0 THEN <<>> ELSE <<[i \in 1..n |-> Part(b, ahash + (4 * (i - 1)), 4)]>>,
       ds |-> IF descs = 0 THEN <<>>
              ELSE <<[i \in 1..n |-> LET k == descs + (16 * n) + (16 * (i - 1))
                                     IN  <<Desc(k), Desc(k + 8)>>]>>]

RECURSIVE EnumsAt(_, _, _)
EnumsAt(b, o, n) ==                                 \* hashes and values
  IF n = 0 THEN <<>>
  ELSE LET k == Count(b, o + 4)
       IN  <<[h |-> Part(b, o, 4), v |-> [i \in 1..k |-> Part(b, o + (8 * i), 8)]]>>
           \o EnumsAt(b, o + (8 * (k + 1)), n - 1)
RECURSIVE NamesOf(_, _, _, _)
NamesOf(es, b, o, i) ==                             \* o: where the next text's place is told
  IF i > Len(es) THEN <<>>
  ELSE LET n == Len(es[i].v)
       IN  <<[h |-> es[i].h, v |-> es[i].v,
              nm |-> [k \in 1..n |-> TextAt(b, U32(b, o + (4 * (k - 1))))],
              cn |-> TextAt(b, U32(b, o + (4 * n)))]>>
           \o NamesOf(es, b, o + (4 * (n + 1)), i + 1)
RECURSIVE Sum(_, _)
Sum(f, i) == IF i > Len(f) THEN 0 ELSE f[i] + Sum(f, i + 1)

\* what is saved at o of the stream
SizeAt(s, o) == HeaderSize + U32(s, o + 24)
Decode(s, o) ==
  LET b == Part(s, o + HeaderSize, U32(s, o + 24))
      es == EnumsAt(b, U32(s, o + 20), Count(s, o + 12))
      eo == U32(s, o + 20) + (8 * Sum([i \in 1..Len(es) |-> Len(es[i].v) + 1], 1))
  IN  [c |-> [i \in 1..Count(s, o + 8) |-> ClassAt(b, EntrySize * (i - 1))],
       e |-> NamesOf(es, b, eo + (4 * U32(s, o + 16)), 1)]

\* one possible saved form of a database
N4(v) == B!Small(4, v)
Z(n) == B!Zero(n)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Text(s) == Append(s, 0)
\* appends texts to b: gives [b, at]
RECURSIVE Put(_, _)
Put(b, ts) ==
  IF ts = <<>> THEN [b |-> b, at |-> <<>>]
  ELSE LET r == Put(b \o Text(Head(ts)), Tail(ts)) IN [b |-> r.b, at |-> <<Len(b)>> \o r.at]
\* the parts of one class put behind b: [b, e: its table entry]
PutClass(b0, c) ==
  LET n == Len(c.t)
      b1 == b0 \o Cat(c.t)
      ap == IF c.ah = <<>> THEN <<>> ELSE Cat(c.ah[1])
      b2 == b1 \o ap
      nm == IF c.nm = <<>> THEN [b |-> b2, at |-> <<>>] ELSE Put(b2, c.nm[1])
      b3 == nm.b \o Z(4 * Len(nm.at)) \o Cat([i \in 1..Len(nm.at) |-> N4(nm.at[i])])
      al == IF c.al = <<>> THEN [b |-> b3, at |-> <<>>]
            ELSE Put(b3, [i \in 1..n |-> IF c.al[1][i] = <<>> THEN <<>> ELSE c.al[1][i][1]])
      b4 == IF c.al = <<>> THEN b3
            ELSE al.b \o Z(4 * n) \o Cat([i \in 1..n |-> IF c.al[1][i] = <<>> THEN Z(4) ELSE N4(al.at[i])])
      ds == IF c.ds = <<>> THEN [b |-> b4, at |-> <<>>]
            ELSE Put(b4, [i \in 1..2 * n |-> c.ds[1][(i + 1) \div 2][1 + ((i + 1) % 2)]])
      D(x, at) == (IF x = <<>> THEN Z(4) ELSE N4(at)) \o N4(Len(x))
      b5 == IF c.ds = <<>> THEN b4
            ELSE ds.b \o Z(16 * n) \o Cat([i \in 1..n |-> D(c.ds[1][i][1], ds.at[(2 * i) - 1]) \o D(c.ds[1][i][2], ds.at[2 * i])])
      cn == IF c.cn = <<>> THEN [b |-> b5, at |-> <<0>>] ELSE Put(b5, c.cn)
  IN  [b |-> cn.b,
       e |-> c.h \o N4(n) \o Z(24) \o N4(Len(b0))
             \o N4(IF c.nm = <<>> THEN 0 ELSE Len(nm.b)) \o N4(cn.at[1])
             \o N4(IF c.al = <<>> THEN 0 ELSE Len(al.b)) \o N4(IF c.ah = <<>> THEN 0 ELSE Len(b1))
             \o N4(IF c.ds = <<>> THEN 0 ELSE Len(ds.b))]
RECURSIVE PutClasses(_, _)
PutClasses(b, cs) ==
  IF cs = <<>> THEN [b |-> b, e |-> <<>>]
  ELSE LET a == PutClass(b, Head(cs))
           r == PutClasses(a.b, Tail(cs))
       IN  [b |-> r.b, e |-> a.e \o r.e]
Encode(d) ==
  LET n == Len(d.c)
      cs == PutClasses(Z(EntrySize * n), d.c)
      ts == Cat([i \in 1..Len(d.e) |-> Append(d.e[i].nm, d.e[i].cn)])
      es == Put(cs.b, ts)
      b == cs.e \o SubSeq(es.b, Len(cs.e) + 1, Len(es.b))
           \o Cat([i \in 1..Len(d.e) |-> d.e[i].h \o N4(Len(d.e[i].v)) \o Cat(d.e[i].v)])
           \o Z(4 * Len(ts)) \o Cat([i \in 1..Len(ts) |-> N4(es.at[i])])
  IN  Magic \o N4(Version) \o N4(n) \o N4(Len(d.e)) \o N4(Len(ts)) \o N4(Len(es.b)) \o N4(Len(b)) \o Z(4) \o b

\* ---------------------------------------------------------------- actions
AddClass(s, c) == dbs' = [dbs EXCEPT ![s].c = Append(@, c)] /\ UNCHANGED <<file, pos>>
AddEnum(s, e) == dbs' = [dbs EXCEPT ![s].e = Append(@, e)] /\ UNCHANGED <<file, pos>>
\* saved behind everything else, in any of the forms that mean the database
Means(bytes, d) ==
  /\ Len(bytes) >= HeaderSize /\ SubSeq(bytes, 1, 4) = Magic /\ U32(bytes, 4) = Version
  /\ SizeAt(bytes, 0) = Len(bytes) /\ Decode(bytes, 0) = d
SaveAs(s, bytes) ==
  /\ Means(bytes, dbs[s])
  /\ file' = file \o bytes /\ UNCHANGED <<dbs, pos>>
Foreign(bytes) == file' = file \o bytes /\ UNCHANGED <<dbs, pos>>
Seek(p) == pos' = p /\ UNCHANGED <<dbs, file>>
LoadResult == IF Part(file, pos, 4) # Magic THEN 1 ELSE IF U32(file, pos + 4) > Version THEN 2 ELSE 0
Load(s) ==
  /\ pos + HeaderSize <= Len(file)
  /\ UNCHANGED file
  /\ IF LoadResult = 0
     THEN dbs' = [dbs EXCEPT ![s] = Decode(file, pos)] /\ pos' = pos + SizeAt(file, pos)
     ELSE dbs' = dbs /\ pos' = pos + HeaderSize

\* -------------------------------- what a class with its declaration is
\* d: cls, named, fields (nm, al, d1, d2, th: name of the class or enumeration, ext)
Described(d, c) ==
  LET n == Len(d.fields)
      ext == d.ext = 1
  IN  /\ Len(c.t) = n
      /\ c.h = (IF d.named = 1 \/ ext THEN NameHash(d.cls) ELSE Z(4))
      /\ c.cn = (IF d.named = 1 \/ ext THEN <<d.cls>> ELSE <<>>)
      /\ c.nm = (IF d.named = 1 \/ ext THEN <<[i \in 1..n |-> d.fields[i].nm]>> ELSE <<>>)
      /\ c.al = (IF ext THEN <<[i \in 1..n |-> IF d.fields[i].al = <<>> THEN <<>> ELSE <<d.fields[i].al>>]>> ELSE <<>>)
      /\ c.ah = (IF ext THEN <<[i \in 1..n |-> IF d.fields[i].al = <<>> THEN Z(4) ELSE NameHash(d.fields[i].al)]>> ELSE <<>>)
      /\ c.ds = (IF ext THEN <<[i \in 1..n |-> <<d.fields[i].d1, d.fields[i].d2>>]>> ELSE <<>>)
      /\ \A i \in 1..n : /\ c.t[i][4] = i - 1
                         /\ Part(c.t[i], 8, 4) = NameHash(d.fields[i].nm)
                         /\ d.fields[i].th # <<>> => Part(c.t[i], 12, 4) = NameHash(d.fields[i].th)
EnumDescribed(d, e) == e.h = NameHash(d.c) /\ e.cn = d.c /\ e.nm = d.nm /\ e.v = d.v
=============================================================================
