------------------------------ MODULE ZipVfs ---------------------------------
(* ZIP archives of stored files, read by many threads (datas/zip_vfs.hpp,        *)
(* formats/ZIP.hpp). An archive is given as pieces of bytes, each followed by    *)
(* a number of zero bytes that are not spelled out (for huge files).             *)
EXTENDS Bytes, FiniteSets
VARIABLES files,     \* names of the open archive, to [c: the content, or its start, n: its size as a word]
          open,      \* whether an archive is open
          handles    \* slots to files taken out of it, [c, pos]
vars == <<files, open, handles>>

Le16(b, p) == b[p] + 256 * b[p + 1]
Le32(b, p) == b[p] + 256 * b[p + 1] + 65536 * b[p + 2] + 16777216 * b[p + 3]
Word(b, p) == SubSeq(b, p, p + 3)
PK(x, y) == <<80, 75, x, y>>

(* the blocks, with the sizes of their fields *)
Layout == [local |-> <<4, 2, 2, 2, 2, 2, 4, 4, 4, 2, 2>>,
           entry |-> <<4, 2, 2, 2, 2, 2, 2, 4, 4, 4, 2, 2, 2, 2, 2, 4, 4>>,
           signature |-> <<4, 2>>,
           central |-> <<4, 2, 2, 2, 2, 4, 4, 2>>,
           central64 |-> <<4, 8, 2, 2, 4, 4, 8, 8, 8, 8>>,
           locator64 |-> <<4, 4, 8, 4>>,
           extra |-> <<4, 4>>]
Id == [local |-> PK(3, 4), entry |-> PK(1, 2), signature |-> PK(5, 5), central |-> PK(5, 6),
       central64 |-> PK(6, 6), locator64 |-> PK(6, 7), extra |-> PK(6, 8)]
Kinds == DOMAIN Layout
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Size(k) == Sum(Layout[k])
RECURSIVE Fields(_, _)
Fields(b, ls) == IF ls = <<>> THEN <<>> ELSE <<SubSeq(b, 1, ls[1])>> \o Fields(SubSeq(b, ls[1] + 1, Len(b)), Tail(ls))
RECURSIVE Joint(_)
Joint(fs) == IF fs = <<>> THEN <<>> ELSE fs[1] \o Joint(Tail(fs))
Decode(k, b) == Fields(b, Layout[k])
Encode(k, fs) == Joint(fs)

KindAt(b, p) == IF p + 3 > Len(b) THEN "none"
                ELSE IF \E k \in Kinds : Id[k] = Word(b, p) THEN CHOOSE k \in Kinds : Id[k] = Word(b, p) ELSE "none"
\* what follows the fields of the block at p, of a block that is no file
Rest(k, b, p) ==
  CASE k = "entry" -> Le16(b, p + 28) + Le16(b, p + 30) + Le16(b, p + 32)
    [] k = "signature" -> Le16(b, p + 4)
    [] k = "central" -> Le16(b, p + 20)
    [] k = "central64" -> Le32(b, p + 4) - 44
    [] k = "extra" -> Le32(b, p + 4)
    [] OTHER -> 0
Put(fs, name, v) == IF name \in DOMAIN fs THEN fs
                    ELSE [x \in DOMAIN fs \cup {name} |-> IF x = name THEN v ELSE fs[x]]
No == [ok |-> FALSE, fs |-> [x \in {} |-> 0]]
\* the piece b from p on; gap: the word of zero bytes behind it
RECURSIVE Parse(_, _, _, _)
Parse(b, p, gap, fs) ==
  IF p = Len(b) + 1 THEN [ok |-> TRUE, fs |-> fs]
  ELSE LET k == KindAt(b, p)
       IN  IF k = "none" THEN No
           ELSE IF k # "local" THEN Parse(b, p + Size(k) + Rest(k, b, p), gap, fs)
           ELSE LET names == Le16(b, p + 26)
                    at == p + 30 + names + Le16(b, p + 28)
                    n == Word(b, p + 18)
                    name == SubSeq(b, p + 30, p + 29 + names)
                    here == Len(b) + 1 - at                     \* bytes of the piece from there on
                    all == ~IsZero(gap) /\ n = Add(Small(4, here), gap)
                IN  IF IsZero(n) THEN Parse(b, at, gap, fs)
                    ELSE IF Bit(SubSeq(b, p + 6, p + 7), 0) = 1 \/ Le16(b, p + 8) # 0 \/ names = 0 THEN No
                    ELSE IF all THEN [ok |-> TRUE, fs |-> Put(fs, name, [c |-> SubSeq(b, at, Len(b)), n |-> n])]
                    ELSE Parse(b, at + Le32(n, 1), gap,
                               Put(fs, name, [c |-> SubSeq(b, at, at + Le32(n, 1) - 1), n |-> n]))
RECURSIVE ParseAll(_, _)
ParseAll(pieces, fs) ==
  IF pieces = <<>> THEN [ok |-> TRUE, fs |-> fs]
  ELSE LET r == Parse(pieces[1][1], 1, pieces[1][2], fs)
       IN  IF r.ok THEN ParseAll(Tail(pieces), r.fs) ELSE No
Archive(pieces) == ParseAll(pieces, No.fs)

\* an archive is opened; the answer tells whether it was taken
Opened(pieces) == LET r == Archive(pieces) IN
  /\ open' = r.ok /\ files' = r.fs
  /\ UNCHANGED handles
Whole(f) == Small(4, Len(f.c)) = f.n
Take(slot, name) ==
  /\ open /\ name \in DOMAIN files /\ Whole(files[name])
  /\ handles' = [x \in DOMAIN handles \cup {slot} |-> IF x = slot THEN [c |-> files[name].c, pos |-> 0] ELSE handles[x]]
  /\ UNCHANGED <<files, open>>
Read(slot, n) == /\ handles[slot].pos + n <= Len(handles[slot].c)
                 /\ handles' = [handles EXCEPT ![slot].pos = @ + n] /\ UNCHANGED <<files, open>>
Got(slot, n) == SubSeq(handles[slot].c, handles[slot].pos + 1, handles[slot].pos + n)
SeekTo(slot, n) == handles' = [handles EXCEPT ![slot].pos = n] /\ UNCHANGED <<files, open>>
Move(from, to) == handles' = [x \in (DOMAIN handles \ {from}) \cup {to} |-> IF x = to THEN handles[from] ELSE handles[x]]
                  /\ UNCHANGED <<files, open>>
=============================================================================
