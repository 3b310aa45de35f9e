----------------------------- MODULE StrView_MC ------------------------------
(* All short texts and patterns, every window on them.                          *)
EXTENDS StrView, TLC
CONSTANTS MaxText, MaxPat
Chars == {97, 98, 32}
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
Init == text \in {<<t, p>> : t \in Texts(MaxText), p \in Texts(MaxPat)}
        /\ win = <<[o |-> 0, n |-> Len(text[1])], [o |-> 0, n |-> Len(text[2])]>>
Next == \/ \E n \in 1..win[1].n : Prefix(1, n) \/ Suffix(1, n)
        \/ \E p \in 0..win[1].n, n \in 0..win[1].n : Sub(1, p, n)
        \/ \E h \in {"trim", "start", "end", "startnl", "endnl"} : TrimIt(1, h)
Spec == Init /\ [][Next]_vars
Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
a == V(1)
b == V(2)
Pos == {None} \cup (0..(Len(a) + 2))
Mirror(i) == IF i = None THEN None ELSE Len(a) - 1 - i
\* backwards is forwards in the mirror
Mirrored == \A p \in 0..(Len(a) - 1) :
  /\ LastOf(a, b, p) = Mirror(FirstOf(Rev(a), b, Len(a) - 1 - p))
  /\ LastNotOf(a, b, p) = Mirror(FirstNotOf(Rev(a), b, Len(a) - 1 - p))
  /\ Len(b) + p <= Len(a) => RFind(a, b, p) = LET i == Find(Rev(a), Rev(b), Len(a) - p - Len(b)) IN
       IF i = None THEN None ELSE Len(a) - i - Len(b)
Other == {c \in Chars : ~In(b, c)}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Complement == \A p \in Pos : FirstNotOf(a, b, p) = FirstOf(a, Listed(Other), p)
                             /\ LastNotOf(a, b, p) = LastOf(a, Listed(Other), p)
Found == \A p \in Pos : \A q \in {"find", "rfind", "fof", "lof", "fnof", "lnof"} :
  LET i == Search(q, a, b, p) IN i = None \/ (i \in 0..Len(a) /\ (q \in {"find", "rfind"} => Matches(a, b, i)))
Ordered == /\ Cmp(a, b) = -Cmp(b, a)
           /\ (Cmp(a, b) = 0) = (a = b)
           /\ Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a => Cmp(a, b) \in {0, -1}
Trimmed == LET t == Trim(a) IN (t = <<>> \/ (~Blank(t[1], FALSE) /\ ~Blank(t[Len(t)], FALSE)))
                               /\ (t = <<>> \/ Find(a, t, 0) # None) /\ Trim(t) = t
Inside == win[1].o >= 0 /\ win[1].n >= 0 /\ win[1].o + win[1].n <= Len(text[1])
=============================================================================
