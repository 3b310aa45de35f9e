------------------------------ MODULE Cursor_Gen ------------------------------
(* Random behaviours of Cursor, printed as programs for the real code.           *)
EXTENDS Cursor, TLC, Json
CONSTANT Depth
VARIABLE hist
Lens == (0..5) \cup (14..18) \cup (30..34) \cup (62..66) \cup {100, 127, 128, 129, 1000}
Aligns == {1, 2, 4, 8, 16, 32, 64, 128, 256, 2048}
R(S) == RandomElement(S)
\* a place in the stream: any, or one near the ends of what it begins with
Spot(more) == IF base = 0 THEN R(0..(Size + more))
              ELSE R({R(0..40), base + R((-20)..20), base + R(0..(Len(mem) + more)), base + R(0..(Len(mem) + more))})
Steps ==
  \E c \in {"r", "w"} :
    \/ \E k \in {"tell", "size", "push", "pop", "rorg", "rorgn"} :
         LET o == [op |-> k, c |-> c] IN Do(o) /\ hist' = Append(hist, o)
    \/ \E n \in {Spot(4), Spot(1) - cur[c].org, R(0..(Len(mem) + 4)), 0} :
         LET o == [op |-> "seekb", c |-> c, n |-> n] IN Do(o) /\ hist' = Append(hist, o)
    \/ \E n \in {R(-40..40), R(-3..3)}, k \in {"seekc", "skip"} :
         LET o == [op |-> k, c |-> c, n |-> n] IN Do(o) /\ hist' = Append(hist, o)
    \/ base > 0 /\ \E n \in {Spot(0) - cur[c].pos} :
         LET o == [op |-> "seekc", c |-> c, n |-> n] IN Do(o) /\ hist' = Append(hist, o)
    \/ \E n \in {0, Spot(0) - Size, R((-Len(mem))..0)} :
         LET o == [op |-> "seeke", c |-> c, n |-> n] IN Do(o) /\ hist' = Append(hist, o)
    \/ \E n \in {Spot(0), Spot(0), R(0..7)} :
         LET o == [op |-> "org", c |-> c, n |-> n] IN Do(o) /\ hist' = Append(hist, o)
    \/ \E n \in {Spot(0), Spot(0), R(0..7)} :
         /\ n <= cur[c].pos
         /\ LET o == [op |-> "orgn", c |-> c, n |-> n] IN Do(o) /\ hist' = Append(hist, o)
    \/ \E n \in {R(Aligns), R({4, 8, 16})} :
         /\ Rel(c) >= 0
         /\ LET o == [op |-> "pad", c |-> c, n |-> n] IN Do(o) /\ hist' = Append(hist, o)
    \/ c = "w" /\ \E n \in {R(Lens), R(0..20)} :
         LET o == [op |-> "skip", c |-> c, n |-> n] IN Do(o) /\ hist' = Append(hist, o)
    \/ c = "w" /\ \E n \in {R(0..40), R(1..9), 1, 2} :
         LET o == [op |-> "write", b |-> [i \in 1..n |-> R(1..255)]]
         IN  Do(o) /\ hist' = Append(hist, o)
    \/ c = "r" /\ \E n \in {R(0..40), R(1..9), 1, 2} :
         LET o == [op |-> "read", n |-> n] IN Do(o) /\ hist' = Append(hist, o)
GInit == Init /\ hist = <<>>
GNext == Len(hist) < Depth /\ Len(mem) < 3000 /\ Steps
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (Len(hist) = Depth) => PrintT("PROG " \o ToJson(hist))
=============================================================================
