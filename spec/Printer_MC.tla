------------------------------ MODULE Printer_MC ------------------------------
(* The implementation's discipline (one lock around the delivery to all sinks)    *)
(* refines the contract; `heard` is what each sink has received so far.           *)
EXTENDS Printer, TLC
CONSTANTS T, S, M
VARIABLES heard, lock, todo
mv == <<pvars, heard, lock, todo>>
\* two-character messages, unique per thread and number
Ch(t, k) == <<10 * t + k, 100 + 10 * t + k>>
Types == <<"MSG", "WRN">>
Init == /\ threads = [t \in T |-> [busy |-> FALSE, m |-> [text |-> <<>>, type |-> "MSG"], plain |-> 0, need |-> {}, got |-> {}]]
        /\ sinks = [s \in S |-> [st |-> "out", color |-> TRUE]]
        /\ deliv = [s \in S |-> Idle] /\ ink = [s \in S |-> "none"]
        /\ order = <<>> /\ last = [s \in S |-> 0] /\ count = [t \in T |-> 0]
        /\ heard = [s \in S |-> <<>>] /\ lock = 0 /\ todo = {}
NoHist == UNCHANGED <<heard, lock, todo>>
IBegin(t) == count[t] < M /\ Begin(t, [text |-> Ch(t, count[t] + 1), type |-> Types[(count[t] % 2) + 1]], 0) /\ NoHist
\* the thread takes the lock and fixes the set of sinks it will serve
ILock(t) == /\ lock = 0 /\ Busy(t) /\ threads[t].got = {} /\ IndexOf(MsgId(t)) > Len(order)
            /\ \E s \in S : sinks[s].st = "in"
            /\ lock' = t /\ todo' = {s \in S : sinks[s].st = "in"}
            /\ UNCHANGED <<pvars, heard>>
IInk(s) == /\ lock # 0 /\ s \in todo /\ deliv[s].t = 0 /\ ink[s] # InkOf(threads[lock].m.type)
           /\ Ink(s, InkOf(threads[lock].m.type)) /\ NoHist
IChunk(s) == /\ lock # 0 /\ s \in todo
             /\ LET txt == SubSeq(threads[lock].m.text, deliv[s].pos + 1, deliv[s].pos + 1)
                IN Receive(s, lock, txt) /\ heard' = [heard EXCEPT ![s] = @ \o txt]
             /\ UNCHANGED lock
             /\ todo' = IF deliv'[s] = Idle THEN todo \ {s} ELSE todo
IInkOff(s) == lock # 0 /\ s \notin todo /\ ink[s] # "none" /\ Ink(s, "none") /\ NoHist
IUnlock(t) == /\ lock = t /\ todo = {} /\ \A s \in S : ink[s] = "none"
              /\ lock' = 0 /\ UNCHANGED <<pvars, heard, todo>>
IEnd(t) == lock # t /\ threads[t].need \subseteq threads[t].got /\ End(t) /\ NoHist
IAdd(s) == sinks[s].st = "out" /\ AddBegin(s, TRUE) /\ NoHist
IAdded(s) == lock = 0 /\ sinks[s].st = "adding" /\ AddEnd(s) /\ NoHist
Next == \/ \E t \in T : IBegin(t) \/ ILock(t) \/ IUnlock(t) \/ IEnd(t)
        \/ \E s \in S : IInk(s) \/ IChunk(s) \/ IInkOff(s) \/ IAdd(s) \/ IAdded(s)
Spec == Init /\ [][Next]_mv
\* ------------------------------------------------------------- properties
Whole == \A s \in S : \* complete messages, never interleaved
   \A i \in 1..(Len(heard[s]) \div 2) :
      LET a == heard[s][2*i - 1] IN heard[s][2*i] = 100 + a
Pos(s, a) == CHOOSE i \in 1..Len(heard[s]) : heard[s][i] = a
Has(s, a) == \E i \in 1..Len(heard[s]) : heard[s][i] = a
Once == \A s \in S : \A i, j \in 1..Len(heard[s]) : i # j => heard[s][i] # heard[s][j]
SameOrder == \A s1, s2 \in S : \A t1, t2 \in T : \A k1, k2 \in 1..M :
   LET a == 10 * t1 + k1  b == 10 * t2 + k2
   IN (Has(s1, a) /\ Has(s1, b) /\ Has(s2, a) /\ Has(s2, b) /\ Pos(s1, a) < Pos(s1, b))
        => Pos(s2, a) < Pos(s2, b)
ThreadOrder == \A s \in S : \A t \in T : \A k \in 1..(M - 1) :
   (Has(s, 10 * t + k) /\ Has(s, 10 * t + k + 1)) => Pos(s, 10 * t + k) < Pos(s, 10 * t + k + 1)
Delivered == \A t \in T : ~Busy(t) => \A s \in threads[t].need : Has(s, 10 * t + count[t])
=============================================================================
