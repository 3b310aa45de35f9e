-------------------------------- MODULE Swap --------------------------------
(* Swapping the byte order of values in place (datas/endian.hpp).              *)
(* A type is a tree of records:                                                *)
(*   [k |-> "s", n]      a scalar of n bytes                                   *)
(*   [k |-> "a", n, t]   n items of type t                                     *)
(*   [k |-> "c", ts]     a class that swaps its members                        *)
(*   [k |-> "d", ts]     a class that is also told the way                     *)
(*   [k |-> "x", n]      n bytes that are never touched                        *)
(* A value is the sequence of its bytes.                                       *)
EXTENDS Integers, Sequences, SequencesExt
VARIABLES type, mem, log       \* log: the ways told so far to classes asking
vars == <<type, mem, log>>

RECURSIVE Leaves(_)            \* widths of scalars in order; 0-n for untouched bytes
Leaves(t) ==
  CASE t.k = "s" -> <<t.n>>
    [] t.k = "x" -> <<0 - t.n>>
    [] t.k = "a" -> LET l == Leaves(t.t) IN FlattenSeq([i \in 1..t.n |-> l])
    [] OTHER -> FlattenSeq([i \in 1..Len(t.ts) |-> Leaves(t.ts[i])])
RECURSIVE Askers(_)            \* how many classes are told the way
Askers(t) ==
  CASE t.k \in {"s", "x"} -> 0
    [] t.k = "a" -> t.n * Askers(t.t)
    [] OTHER -> FoldLeft(LAMBDA s, u : s + Askers(u), IF t.k = "d" THEN 1 ELSE 0, t.ts)

Abs(n) == IF n < 0 THEN 0 - n ELSE n
Size(t) == FoldLeft(LAMBDA s, n : s + Abs(n), 0, Leaves(t))
\* every scalar reversed where it is
SwapLeaves(ls, m) ==
  FoldLeft(LAMBDA acc, n :
             [at |-> acc.at + Abs(n),
              out |-> acc.out \o LET p == SubSeq(m, acc.at, acc.at + Abs(n) - 1)
                                IN  IF n < 0 THEN p ELSE Reverse(p)],
           [at |-> 1, out |-> <<>>], ls)
Swapped(t, m) ==
  LET r == SwapLeaves(Leaves(t), m) IN r.out \o SubSeq(m, r.at, Len(m))
Ways(t, w) == [i \in 1..Askers(t) |-> w]

\* FByteswapper(value, way)
DoSwap(w) == /\ mem' = Swapped(type, mem) /\ log' = log \o Ways(type, w)
             /\ UNCHANGED type
\* FArraySwapper<scalar of n bytes>(value): as many whole scalars as there are
SwapAs(n) == /\ mem' = Swapped([k |-> "a", n |-> Len(mem) \div n, t |-> [k |-> "s", n |-> n]], mem)
             /\ UNCHANGED <<type, log>>
Set(t, m) == type' = t /\ mem' = m /\ log' = <<>>
=============================================================================
