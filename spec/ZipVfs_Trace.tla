---------------------------- MODULE ZipVfs_Trace -----------------------------
EXTENDS ZipVfs, TraceBase
VARIABLE l
Rec == Trace[l]
Empty == [x \in {} |-> 0]
TInit == l = 1 /\ files = Empty /\ open = FALSE /\ handles = Empty
One(b) == IF b THEN 1 ELSE 0
Listed == {<<n, files'[n].n>> : n \in DOMAIN files'}
Step ==
  \/ Rec.op = "fresh" /\ files' = Empty /\ open' = FALSE /\ handles' = Empty /\ Expect("ok", Rec.ok, 1)
  \/ Rec.op = "open" /\ Opened(Rec.ps) /\ Expect("taken", Rec.ok, One(open'))
     /\ (open' => Expect("listed", {<<Rec.ls[i][1], Rec.ls[i][2]>> : i \in 1..Len(Rec.ls)}, Listed)
                  /\ Expect("once", Len(Rec.ls), Cardinality(DOMAIN files')))
  \/ Rec.op = "has" /\ UNCHANGED vars /\ Expect("has", Rec.r, One(Rec.n \in DOMAIN files)) /\ Expect("ok", Rec.ok, 1)
  \/ Rec.op = "take" /\ IF Rec.n \in DOMAIN files THEN Expect("ok", Rec.ok, 1) /\ Take(Rec.h, Rec.n)
                        ELSE Expect("not there", Rec.ok, 0) /\ UNCHANGED vars
  \/ Rec.op = "read" /\ Expect("ok", Rec.ok, 1) /\ Expect("content", Rec.r, Got(Rec.h, Rec.n)) /\ Read(Rec.h, Rec.n)
  \/ Rec.op = "seek" /\ Expect("ok", Rec.ok, 1) /\ SeekTo(Rec.h, Rec.n)
  \/ Rec.op = "tell" /\ Expect("ok", Rec.ok, 1) /\ UNCHANGED vars /\ Expect("place", Rec.r, handles[Rec.h].pos)
     /\ Expect("size", Rec.s, Len(handles[Rec.h].c))
  \/ Rec.op = "move" /\ Expect("ok", Rec.ok, 1) /\ Move(Rec.h, Rec.to)
  \/ Rec.op = "all" /\ Expect("ok", Rec.ok, 1) /\ UNCHANGED vars
     /\ Expect("by threads", Rec.r, [t \in 1..Len(Rec.ns) |-> [i \in 1..Len(Rec.ns[t]) |-> files[Rec.ns[t][i]].c]])
  \/ Rec.op = "block" /\ Expect("ok", Rec.ok, 1) /\ UNCHANGED vars
     /\ Expect("fields", Rec.fs, Decode(Rec.k, Rec.b)) /\ Expect("written", Rec.w, Encode(Rec.k, Rec.fs))
     /\ Expect("read", Rec.at, Size(Rec.k))
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
