------------------------------- MODULE Cursor -------------------------------
(* Positions of a binary reader and a binary writer over one byte store         *)
(* (datas/internal/bincore_navi.hpp, binreader_stream.hpp, binwritter_stream.hpp).*)
(* Cursor c \in {"r","w"} has an absolute position, a relative origin and one    *)
(* saved position.  All operations report positions relative to the origin.     *)
(* A stream may be long: it has base bytes that are zero and are not written,    *)
(* and the bytes mem behind them.  The implementation is run with streams whose  *)
(* base is beyond what 31, 32 or 40 bits hold, told by one base of the model:    *)
(* all that is done with positions is adding, and rests of small powers of two.  *)
EXTENDS Integers, Sequences

VARIABLES base,       \* bytes the stream begins with, all zero
          mem,        \* bytes of the stream behind them
          cur,        \* c -> [pos, org, save]
          res         \* what the last call returned (a number, or bytes)
CONSTANT Bases
vars == <<base, mem, cur, res>>

NoRes == <<>>
Init == /\ mem = <<>> /\ base \in Bases
        /\ cur = [c \in {"r", "w"} |-> [pos |-> 0, org |-> 0, save |-> 0]]
        /\ res = NoRes

Size == base + Len(mem)
Rel(c) == cur[c].pos - cur[c].org

\* overwrite / extend from absolute position p with bytes b (p <= Size)
Put(p, b) ==
  LET q == p - base IN
  [i \in 1..(IF q + Len(b) > Len(mem) THEN q + Len(b) ELSE Len(mem)) |->
     IF i > q /\ i <= q + Len(b) THEN b[i - q] ELSE mem[i]]
Writable(p) == p >= base
Part(p, n) == [i \in 1..n |-> IF p + i <= base THEN 0 ELSE mem[p + i - base]]
Zeros(n) == [i \in 1..n |-> 0]
MoveTo(c, p) == cur' = [cur EXCEPT ![c].pos = p]
InRange(p) == p >= 0 /\ p <= Size

\* ---- queries
Tell(c) == res' = <<Rel(c)>> /\ UNCHANGED <<mem, cur>>
GetSize(c) == res' = <<Size - cur[c].org>> /\ UNCHANGED <<mem, cur>>

\* ---- moving
SeekBeg(c, p) == InRange(p + cur[c].org) /\ MoveTo(c, p + cur[c].org)
                 /\ UNCHANGED mem /\ res' = NoRes
SeekCur(c, d) == InRange(cur[c].pos + d) /\ MoveTo(c, cur[c].pos + d)
                 /\ UNCHANGED mem /\ res' = NoRes
SeekEnd(c, d) == InRange(Size + d) /\ MoveTo(c, Size + d)
                 /\ UNCHANGED mem /\ res' = NoRes
Push(c) == cur' = [cur EXCEPT ![c].save = cur[c].pos]
           /\ res' = <<cur[c].pos>> /\ UNCHANGED mem
Pop(c) == InRange(cur[c].save) /\ MoveTo(c, cur[c].save)
          /\ UNCHANGED mem /\ res' = NoRes
SetOrigin(c, o, sk) ==
  /\ sk => InRange(o)
  /\ cur' = [cur EXCEPT ![c].org = o, ![c].pos = IF sk THEN o ELSE @]
  /\ UNCHANGED mem /\ res' = NoRes
ResetOrigin(c, sk) == SetOrigin(c, 0, sk)

\* ---- skipping: a reader moves, a writer going forward fills with zeros
SkipBy(c, n) ==
  /\ IF c = "w" /\ n > 0
     THEN Writable(cur[c].pos) /\ mem' = Put(cur[c].pos, Zeros(n))
     ELSE InRange(cur[c].pos + n) /\ UNCHANGED mem
  /\ MoveTo(c, cur[c].pos + n)
  /\ res' = NoRes
Skip(c, n) == SkipBy(c, n)
PadOf(c, a) == LET m == Rel(c) % a IN IF m = 0 THEN 0 ELSE a - m
ApplyPadding(c, a) == SkipBy(c, PadOf(c, a))

\* ---- raw transfer
Write(b) == /\ Writable(cur["w"].pos) /\ mem' = Put(cur["w"].pos, b)
            /\ MoveTo("w", cur["w"].pos + Len(b))
            /\ res' = NoRes
Read(n) == /\ InRange(cur["r"].pos + n)
           /\ res' = Part(cur["r"].pos, n)
           /\ MoveTo("r", cur["r"].pos + n)
           /\ UNCHANGED mem

Do(o) ==
  /\ UNCHANGED base
  /\ CASE o.op = "tell" -> Tell(o.c)
    [] o.op = "size" -> GetSize(o.c)
    [] o.op = "seekb" -> SeekBeg(o.c, o.n)
    [] o.op = "seekc" -> SeekCur(o.c, o.n)
    [] o.op = "seeke" -> SeekEnd(o.c, o.n)
    [] o.op = "push" -> Push(o.c)
    [] o.op = "pop" -> Pop(o.c)
    [] o.op = "org" -> SetOrigin(o.c, o.n, TRUE)
    [] o.op = "orgn" -> SetOrigin(o.c, o.n, FALSE)
    [] o.op = "rorg" -> ResetOrigin(o.c, TRUE)
    [] o.op = "rorgn" -> ResetOrigin(o.c, FALSE)
    [] o.op = "skip" -> Skip(o.c, o.n)
    [] o.op = "pad" -> ApplyPadding(o.c, o.n)
    [] o.op = "write" -> Write(o.b)
    [] o.op = "read" -> Read(o.n)

\* ------------------------------------------------------------- properties
TypeOK == /\ \A c \in {"r", "w"} : cur[c].pos >= 0 /\ cur[c].save >= 0
\* a reader never changes the bytes; queries change nothing; nothing shrinks
NeverShrinks == [][Len(mem') >= Len(mem)]_vars
OneCursor == [][cur["r"] = cur'["r"] \/ cur["w"] = cur'["w"]]_vars
ReaderPure == [][cur["w"] = cur'["w"] => mem' = mem]_vars
\* bytes before and after the written span keep their value
=============================================================================
