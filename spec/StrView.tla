------------------------------- MODULE StrView -------------------------------
(* Views of strings (datas/string_view.hpp, the C++17 string_view) and trimming *)
(* of blanks (datas/supercore.hpp). Two views on texts of their own; characters *)
(* are numbers, positions start at 0, None is "not found" and, as a position or *)
(* count, "no limit".                                                           *)
EXTENDS Integers, Sequences
VARIABLES text, win      \* win: [o: start, n: length] of both views
vars == <<text, win>>
None == -1
Thrown == -2
V(s) == SubSeq(text[s], win[s].o + 1, win[s].o + win[s].n)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Lim(p, n) == IF p = None THEN n ELSE Min(p, n)         \* a position or count no more than n

\* ------------------------------------------------------------ queries
Matches(v, w, i) == i + Len(w) <= Len(v) /\ SubSeq(v, i + 1, i + Len(w)) = w
First(S) == IF S = {} THEN None ELSE CHOOSE x \in S : \A y \in S : x <= y
Last(S) == IF S = {} THEN None ELSE CHOOSE x \in S : \A y \in S : x >= y
In(w, c) == \E i \in 1..Len(w) : w[i] = c
From(v, p) == Lim(p, Len(v) + 1)
Find(v, w, p) == First({i \in From(v, p)..Len(v) : Matches(v, w, i)})
RFind(v, w, p) == Last({i \in 0..Lim(p, Len(v)) : Matches(v, w, i)})
FirstOf(v, w, p) == First({i \in From(v, p)..(Len(v) - 1) : In(w, v[i + 1])})
LastOf(v, w, p) == Last({i \in 0..Lim(p, Len(v) - 1) : i < Len(v) /\ In(w, v[i + 1])})
FirstNotOf(v, w, p) == First({i \in From(v, p)..(Len(v) - 1) : ~In(w, v[i + 1])})
LastNotOf(v, w, p) == Last({i \in 0..Lim(p, Len(v) - 1) : i < Len(v) /\ ~In(w, v[i + 1])})
Search(q, v, w, p) ==
  CASE q = "find" -> Find(v, w, p) [] q = "rfind" -> RFind(v, w, p)
    [] q = "fof" -> FirstOf(v, w, p) [] q = "lof" -> LastOf(v, w, p)
    [] q = "fnof" -> FirstNotOf(v, w, p) [] q = "lnof" -> LastNotOf(v, w, p)
RECURSIVE Cmp(_, _)
Cmp(v, w) ==
  IF v = <<>> THEN IF w = <<>> THEN 0 ELSE -1
  ELSE IF w = <<>> THEN 1
  ELSE IF v[1] # w[1] THEN IF v[1] < w[1] THEN -1 ELSE 1
  ELSE Cmp(Tail(v), Tail(w))
\* of the n characters from p
HasPart(v, p) == p # None /\ p <= Len(v)
Part(v, p, n) == SubSeq(v, p + 1, p + Lim(n, Len(v) - p))

Blank(c, nl) == c = 32 \/ c = 9 \/ (nl /\ c = 10)
RECURSIVE SkipStart(_, _)
SkipStart(v, nl) == IF v # <<>> /\ Blank(v[1], nl) THEN SkipStart(Tail(v), nl) ELSE v
RECURSIVE SkipEnd(_, _)
SkipEnd(v, nl) == IF v # <<>> /\ Blank(v[Len(v)], nl) THEN SkipEnd(SubSeq(v, 1, Len(v) - 1), nl) ELSE v
Trim(v) == SkipEnd(SkipStart(v, FALSE), FALSE)

\* ------------------------------------------------- moving the window
Load(s, t, o, n) == text' = [text EXCEPT ![s] = t] /\ win' = [win EXCEPT ![s] = [o |-> o, n |-> n]]
Prefix(s, n) == n <= win[s].n /\ win' = [win EXCEPT ![s] = [o |-> @.o + n, n |-> @.n - n]] /\ UNCHANGED text
Suffix(s, n) == n <= win[s].n /\ win' = [win EXCEPT ![s].n = @ - n] /\ UNCHANGED text
Resize(s, n) == n <= win[s].n /\ win' = [win EXCEPT ![s].n = n] /\ UNCHANGED text
Sub(s, p, n) == /\ UNCHANGED text
                /\ win' = IF HasPart(V(s), p) THEN [win EXCEPT ![s] = [o |-> @.o + p, n |-> Lim(n, @.n - p)]]
                          ELSE win
Swap == text' = <<text[2], text[1]>> /\ win' = <<win[2], win[1]>>
TrimIt(s, how) ==
  LET v == V(s)
      a == IF how \in {"trim", "start"} THEN SkipStart(v, FALSE) ELSE IF how = "startnl" THEN SkipStart(v, TRUE) ELSE v
      b == IF how \in {"trim", "end"} THEN SkipEnd(a, FALSE) ELSE IF how = "endnl" THEN SkipEnd(a, TRUE) ELSE a
  IN  win' = [win EXCEPT ![s] = [o |-> @.o + (Len(v) - Len(a)), n |-> Len(b)]] /\ UNCHANGED text
=============================================================================
