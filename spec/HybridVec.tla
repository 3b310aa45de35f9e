------------------------------ MODULE HybridVec ------------------------------
(* Vectors that may be linked to memory outside (datas/allocator_hybrid.hpp).   *)
(* Regions of outside memory are sequences of items; a vector is linked to a    *)
(* part of one, whose items are its own then, or keeps its items by itself.     *)
EXTENDS Integers, Sequences
None == [r |-> 0, from |-> 0, cap |-> 0]
Empty == [link |-> None, items |-> <<>>]
IsLinked(v) == v.link # None
\* the regions after linked vector v has items
Written(regs, link, items) ==
  IF link = None THEN regs
  ELSE [regs EXCEPT ![link.r] = [i \in 1..Len(@) |-> IF i > link.from /\ i <= link.from + Len(items) THEN items[i - link.from] ELSE @[i]]]
Region(regs, link, n) == SubSeq(regs[link.r], link.from + 1, link.from + n)
\* a vector whose items change stays linked while there is room, and leaves
\* the outside memory as it is when there is none
Changed(regs, v, items) ==
  IF IsLinked(v) /\ Len(items) <= v.link.cap
  THEN <<Written(regs, v.link, items), [v EXCEPT !.items = items]>>
  ELSE <<regs, [link |-> None, items |-> items]>>
Linked(regs, r, from, n) ==
  IF n = 0 THEN Empty
  ELSE LET k == [r |-> r, from |-> from, cap |-> n] IN [link |-> k, items |-> Region(regs, k, n)]
\* changes of items
Push(s, x) == Append(s, x)
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Put(s, i, x) == [s EXCEPT ![i] = x]
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Erase(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Resized(s, n, x) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE x]
=============================================================================
