------------------------------ MODULE Cursor_MC ------------------------------
EXTENDS Cursor
CONSTANTS MaxSize, Units
C == {"r", "w"}
Ops == [op : {"size", "push", "pop", "rorg", "rorgn"}, c : C]
  \cup [op : {"seekb", "seekc", "seeke", "skip"}, c : C, n : (-2)..2]
  \cup [op : {"org", "orgn"}, c : C, n : 0..1]
  \cup [op : {"pad"}, c : C, n : {2, 4}]
  \cup [op : {"write"}, b : [1..1 -> Units]]
  \cup [op : {"read"}, n : 1..2]
Next == \E o \in Ops : Do(o)
Bound == Len(mem) <= MaxSize /\ \A c \in C : cur[c].pos <= base + MaxSize
Spec == Init /\ [][Next]_vars
View == <<base, mem, cur>>
\* per-action laws, evaluated on every transition of the bounded model
PadAligned == [][\A c \in C, a \in {2, 4} :
    ApplyPadding(c, a) => /\ (cur'[c].pos - cur'[c].org) % a = 0
                          /\ cur'[c].pos >= cur[c].pos
                          /\ cur'[c].pos - cur[c].pos < a]_vars
PushPop == [][\A c \in C : Pop(c) => cur'[c].pos = cur[c].save]_vars
=============================================================================
