---------------------------- MODULE StrView_Trace ----------------------------
EXTENDS StrView, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ text = <<<<>>, <<>>>> /\ win = <<[o |-> 0, n |-> 0], [o |-> 0, n |-> 0]>>
S == Rec.s + 1
Fresh == text' = <<<<>>, <<>>>> /\ win' = <<[o |-> 0, n |-> 0], [o |-> 0, n |-> 0]>>
Move == \/ Rec.op = "fresh" /\ Fresh
        \/ Rec.op = "load" /\ Load(S, Rec.text, Rec.o, Rec.n)
        \/ Rec.op = "prefix" /\ Prefix(S, Rec.n)
        \/ Rec.op = "suffix" /\ Suffix(S, Rec.n)
        \/ Rec.op = "resize" /\ Resize(S, Rec.n)
        \/ Rec.op = "sub" /\ Sub(S, Rec.p, Rec.n) /\ Expect("thrown", Rec.r, IF HasPart(V(S), Rec.p) THEN 0 ELSE Thrown)
        \/ Rec.op = "swap" /\ Swap
        \/ Rec.op = "trim" /\ TrimIt(S, Rec.how)
Bool(b) == IF b THEN 1 ELSE 0
Query ==
  /\ UNCHANGED vars
  /\ \/ /\ Rec.op = "search"
        /\ Expect(Rec.q, Rec.r, Search(Rec.q, V(S), IF Rec.how = 0 THEN V(3 - S) ELSE Rec.w, Rec.p))
     \/ /\ Rec.op = "cmp"
        /\ LET w == IF Rec.how = 0 THEN V(3 - S) ELSE Rec.w
               x == IF Rec.p = Thrown THEN V(S) ELSE IF HasPart(V(S), Rec.p) THEN Part(V(S), Rec.p, Rec.n) ELSE <<>>
               y == IF Rec.p2 = Thrown THEN w ELSE IF HasPart(w, Rec.p2) THEN Part(w, Rec.p2, Rec.n2) ELSE <<>>
               bad == (Rec.p # Thrown /\ ~HasPart(V(S), Rec.p)) \/ (Rec.p2 # Thrown /\ ~HasPart(w, Rec.p2))
           IN  Expect("order", Rec.r, IF bad THEN Thrown ELSE Cmp(x, y))
     \/ /\ Rec.op = "rel"
        /\ LET c == Cmp(V(S), V(3 - S))
           IN  Expect("relations", Rec.r, <<Bool(c = 0), Bool(c # 0), Bool(c < 0), Bool(c > 0), Bool(c <= 0), Bool(c >= 0)>>)
     \/ /\ Rec.op = "at"
        /\ Expect("character", Rec.r, IF Rec.p # None /\ Rec.p < win[S].n THEN V(S)[Rec.p + 1] ELSE Thrown)
     \/ /\ Rec.op = "copy"
        /\ LET ok == HasPart(V(S), Rec.p)
               got == IF ok THEN Part(V(S), Rec.p, Rec.n) ELSE <<>>
           IN  /\ Expect("copied", Rec.r, IF ok THEN Len(got) ELSE Thrown)
               /\ Expect("destination", Rec.dst, got \o [i \in 1..(Len(Rec.dst) - Len(got)) |-> 35])
\* whatever happens: both views show what they should, by every way to read them
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ (Move \/ Query)
         /\ \A s \in 1..2 : LET v == SubSeq(text'[s], win'[s].o + 1, win'[s].o + win'[s].n) IN
              /\ Expect("view", Rec.v[s], v)
              /\ Expect("place", Rec.off[s], IF win'[s].n = 0 /\ Rec.off[s] = None THEN None ELSE win'[s].o)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
