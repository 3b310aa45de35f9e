----------------------------- MODULE FileTree_MC -----------------------------
(* Small trees built in every way, scanned from everywhere.                     *)
EXTENDS FileTree, TLC
CONSTANTS Steps, Depth
VARIABLE n
Reversed(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]
Names == {<<97>>, <<97, 98>>}
Paths == UNION {[1..k -> Names] : k \in 1..Depth}
Root == [x \in {<<>>} |-> "dir"]
Init == tree = Root /\ found = [x \in {} |-> 0] /\ filters = {} /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E p \in Paths, k \in {"dir", "file", "other", "closed"} : Put(p, k)
           \/ \E p \in Paths : MakeFor(<<>>, <<p>>)
           \/ \E p \in Paths, b \in Names : MakeFor(<<b>>, <<p, Reversed(p)>>)
           \/ \E p \in Paths \cup {<<>>}, k \in {"dir", "closed"} : MakeOne(p, k)
           \/ \E d \in {<<>>} \cup Names : LET e == IF d = <<>> THEN d ELSE <<d>> IN
                Scan(e, IF d = <<>> THEN d ELSE d \o <<Slash>>)
           \/ AddFilter(<<98>>) \/ ClearFilters \/ Clear

Spec == Init /\ [][Next]_<<vars, n>>
Closed == \A p \in DOMAIN tree : p # <<>> => (Exists(Parent(p)) /\ IsDir(tree[Parent(p)]))
\* what is found is there, is no folder and was asked for
Sound == \A x \in DOMAIN found : \E p \in DOMAIN tree : Joined(p) = x /\ ~IsDir(tree[p])
Typed == \A p \in Paths : TypeOf(p) \in {"error", "directory", "file", "invalid"}
         /\ (TypeOf(p) = "error") = (~Exists(p) \/ \E k \in 1..(Len(p) - 1) : tree[SubSeq(p, 1, k)] = "closed")
\* making folders never changes what exists, and a second time nothing
Grown == [][(\A p \in DOMAIN tree : p \in DOMAIN tree' /\ tree'[p] = tree[p])
            /\ (Cardinality(DOMAIN tree') > Cardinality(DOMAIN tree) => found' = found)]_<<vars, n>>
Once == \A p \in Paths : Made(Made(tree, p, 1), p, 1) = Made(tree, p, 1)
\* without filters everything that can be reached is found
Complete == [][(found' # found /\ filters = {} /\ DOMAIN found = {} /\ DOMAIN found' # {}) =>
               \/ \A p \in DOMAIN tree : (~IsDir(tree[p]) /\ Reached(<<>>, p)) => Joined(p) \in DOMAIN found'
               \/ \E d \in Names : \A p \in Below(<<d>>) : (~IsDir(tree[p]) /\ Reached(<<d>>, p)) => Joined(p) \in DOMAIN found']_<<vars, n>>
=============================================================================
