----------------------------- MODULE TaskQueue_MC -----------------------------
EXTENDS TaskQueue
CONSTANTS MaxN, MaxHW
Init == n = 0 /\ hw = 0 /\ phase = "idle" /\ handed = 0 /\ slot = <<>> /\ started = {} /\ ended = {}
Next == \/ \E m \in 0..MaxN, h \in 0..MaxHW : Call(m, h)
        \/ \E w \in 1..Workers : phase # "idle" /\ HandOut(w)
        \/ \E i \in 0..(n-1) : Begin(i) \/ Finish(i)
        \/ Return
Fair == /\ WF_vars(\E w \in 1..Workers : phase # "idle" /\ HandOut(w))
        /\ \A i \in 0..(MaxN-1) : WF_vars(Begin(i)) /\ WF_vars(Finish(i))
        /\ WF_vars(Return)
Spec == Init /\ [][Next]_vars /\ Fair
\* every call returns (every task body terminating)
Returns == (phase = "run") ~> (phase = "done")
\* a task that never ends does not keep the others from running
FairBut0 == /\ WF_vars(\E w \in 1..Workers : phase # "idle" /\ HandOut(w))
            /\ \A i \in 0..(MaxN-1) : WF_vars(Begin(i))
            /\ \A i \in 1..(MaxN-1) : WF_vars(Finish(i))
SpecBut0 == Init /\ [][Next]_vars /\ FairBut0
OthersRun == (phase = "run" /\ Workers >= 2) ~> (1..(n-1) \subseteq ended)
=============================================================================
