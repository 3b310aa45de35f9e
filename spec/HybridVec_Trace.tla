--------------------------- MODULE HybridVec_Trace ---------------------------
EXTENDS HybridVec, TraceBase
VARIABLES l, regs, vec
Rec == Trace[l]
V == 1..4
Start == [r \in 1..3 |-> [i \in 1..16 |-> 10 * r + i - 1]]
LinkOf(o) == IF o.r = 0 THEN None ELSE [r |-> o.r, from |-> o.from, cap |-> o.cap]
To(items) == LET c == Changed(regs, vec[Rec.v], items) IN <<c[1], [vec EXCEPT ![Rec.v] = c[2]]>>
Same(v) == <<regs, [vec EXCEPT ![Rec.v] = v]>>
S == vec[Rec.v].items
Step == CASE Rec.op = "reset" -> <<Start, [v \in V |-> Empty]>>
  [] Rec.op = "link" -> Same(Linked(regs, Rec.r, Rec.from, Rec.n))
  [] Rec.op = "push" -> To(Push(S, Rec.x))
  [] Rec.op = "pop" -> To(Pop(S))
  [] Rec.op = "put" -> To(Put(S, Rec.i, Rec.x))
  [] Rec.op = "insert" -> To(Insert(S, Rec.i, Rec.x))
  [] Rec.op = "erase" -> To(Erase(S, Rec.i))
  [] Rec.op = "resize" -> To(Resized(S, Rec.n, Rec.x))
  [] Rec.op = "assign" -> To(Resized(<<>>, Rec.n, Rec.x))
  [] Rec.op = "clear" -> To(<<>>)
  [] Rec.op = "reserve" -> IF IsLinked(vec[Rec.v]) /\ Rec.n > vec[Rec.v].link.cap THEN Same([vec[Rec.v] EXCEPT !.link = None]) ELSE <<regs, vec>>
  [] Rec.op = "dispose" -> Same(Empty)
  [] Rec.op = "copy" -> Same([link |-> None, items |-> vec[Rec.w].items])
       \* assigned to: it may stay linked if there is room
  [] Rec.op = "copyto" -> IF Rec.v = Rec.w THEN <<regs, vec>>
                          ELSE IF Rec.vs[Rec.v].r = 0 THEN Same([link |-> None, items |-> vec[Rec.w].items])
                          ELSE To(vec[Rec.w].items)
  [] Rec.op = "move" -> <<regs, [vec EXCEPT ![Rec.v] = vec[Rec.w], ![Rec.w] = Empty]>>
  [] Rec.op = "swap" -> <<regs, [vec EXCEPT ![Rec.v] = vec[Rec.w], ![Rec.w] = vec[Rec.v]]>>
TInit == l = 1 /\ regs = Start /\ vec = [v \in V |-> Empty]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ Expect("outside memory freed", Rec.foreign, 0)
         /\ Expect("own memory lost", Rec.lost, 0)
         /\ LET s == Step
            IN  /\ Expect("outside memory", Rec.rs, s[1])
                /\ \A v \in V : Expect(<<"items of", v>>, Rec.vs[v].items, s[2][v].items)
                                /\ Expect(<<"link of", v>>, LinkOf(Rec.vs[v]), s[2][v].link)
                /\ regs' = s[1] /\ vec' = s[2]
TSpec == TInit /\ [][TNext]_<<l, regs, vec>>
=============================================================================
