------------------------------- MODULE TypedIO -------------------------------
(* Typed values through a binary writer and a binary reader                     *)
(* (datas/binwritter_ref.hpp, datas/binreader_ref.hpp, datas/endian.hpp).       *)
(* A value is a sequence of fields, a field the bytes of one scalar as it lies   *)
(* in memory.  A side whose byte order is swapped reverses every field.         *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES stream,          \* written and not yet read
          wswap, rswap,    \* byte order of the writer, of the reader
          pending          \* history: what was written and not yet read
vars == <<stream, wswap, rswap, pending>>

Init == stream = <<>> /\ wswap = FALSE /\ rswap = FALSE /\ pending = <<>>

Mem(f, sw) == IF sw THEN Reverse(f) ELSE f
RECURSIVE Flat(_)                       \* by halves, for they may be many
Flat(fs) == IF Len(fs) < 200 THEN FlattenSeq(fs)
            ELSE LET h == Len(fs) \div 2 IN Flat(SubSeq(fs, 1, h)) \o Flat(SubSeq(fs, h + 1, Len(fs)))
Out(fs, sw) == Flat([i \in 1..Len(fs) |-> Mem(fs[i], sw)])

\* little-endian count field of w bytes
CountField(n, w) == [k \in 1..w |-> CASE k = 1 -> n % 256 [] k = 2 -> (n \div 256) % 256
                                      [] k = 3 -> (n \div 65536) % 256 [] OTHER -> 0]
Zero(w) == [k \in 1..w |-> 0]

SwapWriter(b) == wswap' = b /\ UNCHANGED <<stream, rswap, pending>>
SwapReader(b) == rswap' = b /\ UNCHANGED <<stream, wswap, pending>>

Emit(fs) == /\ stream' = stream \o Out(fs, wswap)
            /\ pending' = Append(pending, [fs |-> fs, sw |-> wswap])
            /\ UNCHANGED <<wswap, rswap>>
\* a scalar, an array, a structure, a container without count, a user class
Write(fs) == Emit(fs)
\* a container preceded by its number of items
WriteCounted(w, n, fs) == Emit(<<CountField(n, w)>> \o fs)
\* a zero terminated string
WriteZ(fs, w) == Emit(Append(fs, Zero(w)))

\* split the front of the stream into fields of the given widths
Sum(ws) == FoldLeft(LAMBDA a, b : a + b, 0, ws)
RECURSIVE Take(_, _, _)                 \* by halves, for they may be many
Take(s, at, ws) ==
  IF ws = <<>> THEN <<>>
  ELSE IF Len(ws) = 1 THEN <<SubSeq(s, at, at + ws[1] - 1)>>
  ELSE LET h == Len(ws) \div 2
           one == SubSeq(ws, 1, h)
       IN  Take(s, at, one) \o Take(s, at + Sum(one), SubSeq(ws, h + 1, Len(ws)))
In(ws) == LET fs == Take(stream, 1, ws)
          IN  [i \in 1..Len(ws) |-> Mem(fs[i], rswap)]
Consume(ws) == /\ Sum(ws) <= Len(stream)
               /\ stream' = SubSeq(stream, Sum(ws) + 1, Len(stream))
               /\ pending' = IF pending = <<>> THEN <<>> ELSE Tail(pending)
               /\ UNCHANGED <<wswap, rswap>>

CountValue(f) == f[1] + (IF Len(f) > 1 THEN 256 * f[2] ELSE 0)
                 + (IF Len(f) > 2 THEN 65536 * f[3] ELSE 0)
CountOf(w) == CountValue(In(<<w>>)[1])
Repeat(ws, n) == Flat([i \in 1..n |-> ws])
CountedWidths(w, ws) == <<w>> \o Repeat(ws, CountOf(w))
\* widths of a zero terminated string at the front (with its terminator)
RECURSIVE ZLen(_, _)
ZLen(w, k) == IF k * w > Len(stream) THEN k - 1
              ELSE IF SubSeq(stream, (k - 1) * w + 1, k * w) = Zero(w) THEN k
              ELSE ZLen(w, k + 1)
ZWidths(w) == [i \in 1..ZLen(w, 1) |-> w]

\* --------------------------------------------------------------- properties
\* Whatever was written is read back equal, in order, by a reader of the same byte
\* order; in the other order every field comes out reversed; exactly its bytes are used.
RoundTrip ==
  pending # <<>> =>
    LET p == pending[1]
        ws == [i \in 1..Len(p.fs) |-> Len(p.fs[i])]
    IN  /\ Sum(ws) <= Len(stream)
        /\ In(ws) = [i \in 1..Len(ws) |-> Mem(p.fs[i], p.sw # rswap)]
NothingLeft == pending = <<>> => stream = <<>>
=============================================================================
