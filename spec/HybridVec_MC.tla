---------------------------- MODULE HybridVec_MC -----------------------------
\* Vectors linked to parts of one region, grown, shrunk, copied and disposed of.
\* What lies outside of all links ever made is never changed; a vector that is
\* not linked is changed by nobody else; a linked one always shows the memory.
EXTENDS HybridVec
CONSTANTS Size, Max, Limit
VARIABLES regs, vec, ever, n
vars == <<regs, vec, ever, n>>
V == 1..2
Items == 0..1
Init == regs = [r \in {1} |-> [i \in 1..Size |-> 7]] /\ vec = [v \in V |-> Empty] /\ ever = {} /\ n = 0
To(v, items) == LET c == Changed(regs, vec[v], items)
                IN  regs' = c[1] /\ vec' = [vec EXCEPT ![v] = c[2]] /\ UNCHANGED ever
Overlap(v, r, from, k) == vec[v].link.r = r /\ vec[v].link.from < from + k /\ from < vec[v].link.from + vec[v].link.cap
Link(v) == \E from \in 0..(Size - 1), k \in 0..Size :
  /\ from + k <= Size /\ ~\E w \in V \ {v} : Overlap(w, 1, from, k)
  /\ vec' = [vec EXCEPT ![v] = Linked(regs, 1, from, k)] /\ ever' = ever \cup (from + 1)..(from + k) /\ UNCHANGED regs
Change(v) == LET s == vec[v].items IN
  \/ \E x \in Items : Len(s) < Max /\ To(v, Push(s, x))
  \/ Len(s) > 0 /\ To(v, Pop(s))
  \/ \E i \in 1..Len(s), x \in Items : To(v, Put(s, i, x))
  \/ \E i \in 1..Len(s) : To(v, Erase(s, i))
  \/ \E i \in 1..(Len(s) + 1), x \in Items : Len(s) < Max /\ To(v, Insert(s, i, x))
Dispose(v) == vec' = [vec EXCEPT ![v] = Empty] /\ UNCHANGED <<regs, ever>>
Copy(v, w) == vec' = [vec EXCEPT ![v] = [link |-> None, items |-> vec[w].items]] /\ UNCHANGED <<regs, ever>>
Move(v, w) == vec' = [vec EXCEPT ![v] = vec[w], ![w] = Empty] /\ UNCHANGED <<regs, ever>>
Swap(v, w) == vec' = [vec EXCEPT ![v] = vec[w], ![w] = vec[v]] /\ UNCHANGED <<regs, ever>>
Next == /\ n < Limit /\ n' = n + 1
        /\ \E v \in V : Link(v) \/ Change(v) \/ Dispose(v) \/ \E w \in V \ {v} : Copy(v, w) \/ Move(v, w) \/ Swap(v, w)
Spec == Init /\ [][Next]_vars
Shows == \A v \in V : IsLinked(vec[v]) => vec[v].items = Region(regs, vec[v].link, Len(vec[v].items))
Outside == \A i \in 1..Size : i \notin ever => regs[1][i] = 7
Kept == [][\A i \in 1..Size : regs'[1][i] # regs[1][i] =>
            \E v \in V : IsLinked(vec[v]) /\ i > vec[v].link.from /\ i <= vec[v].link.from + vec[v].link.cap]_vars
Alone == [][\A v, w \in V : v # w /\ vec'[v].items # vec[v].items /\ vec'[w].items # vec[w].items =>
            {vec'[v].items, vec'[w].items} \subseteq {vec[v].items, vec[w].items, <<>>}]_vars
=============================================================================
