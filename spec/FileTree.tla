------------------------------ MODULE FileTree -------------------------------
(* Folders and files: what a scan finds (datas/directory_scanner.hpp), what      *)
(* paths are (FileType) and folders made for paths (mkdirs, datas/stat.hpp).     *)
(* A path is a sequence of names; a name is a sequence of characters. The tree   *)
(* maps the paths that exist, <<>> being the current folder, to their kind:      *)
(* "dir", "closed" (a folder that cannot be read), "file" or "other".            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tree,      \* the paths that exist, to their kinds
          found,     \* what the scanner holds: a bag of texts, as a function to counts
          filters    \* the set of texts
vars == <<tree, found, filters>>
Slash == 47

IsDir(k) == k \in {"dir", "closed"}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
Exists(p) == p \in DOMAIN tree
Has(v, w) == \E i \in 0..(Len(v) - Len(w)) : SubSeq(v, i + 1, i + Len(w)) = w
Chosen(name) == filters = {} \/ \E f \in filters : Has(name, f)
RECURSIVE Joined(_)
Joined(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<Slash>> \o Joined(Tail(p))

\* everything between the folder and p can be read
Reached(d, p) == \A n \in Len(d)..(Len(p) - 1) : tree[SubSeq(p, 1, n)] = "dir"
Below(d) == {p \in DOMAIN tree : Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d}
Hits(d) == {p \in Below(d) : ~IsDir(tree[p]) /\ Reached(d, p) /\ Chosen(Last(p))}
Count(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0

\* a folder told as d is scanned; start: how the names of what is in it begin
Scan(d, start) ==
  LET hit == IF Exists(d) /\ IsDir(tree[d])
             THEN {start \o Joined(SubSeq(p, Len(d) + 1, Len(p))) : p \in Hits(d)} ELSE {}
  IN  found' = [x \in DOMAIN found \cup hit |-> Count(found, x) + (IF x \in hit THEN 1 ELSE 0)]
      /\ UNCHANGED <<tree, filters>>
AddFilter(f) == filters' = filters \cup {f} /\ UNCHANGED <<tree, found>>
ClearFilters == filters' = {} /\ UNCHANGED <<tree, found>>
Clear == found' = [x \in {} |-> 0] /\ UNCHANGED <<tree, filters>>

TypeOf(p) ==
  IF ~Exists(p) \/ (\E n \in 0..(Len(p) - 1) : tree[SubSeq(p, 1, n)] = "closed") THEN "error"
  ELSE IF IsDir(tree[p]) THEN "directory" ELSE IF tree[p] = "file" THEN "file" ELSE "invalid"

\* paths are made by the outside
Put(p, k) == Exists(Parent(p)) /\ tree[Parent(p)] = "dir" /\ ~Exists(p)
             /\ tree' = [x \in DOMAIN tree \cup {p} |-> IF x = p THEN k ELSE tree[x]]
             /\ UNCHANGED <<found, filters>>
\* folders made for a set of paths, as far as nothing is in the way
RECURSIVE Made(_, _, _)
Made(t, p, n) ==                       \* the first n.. names of p
  IF n > Len(p) THEN t
  ELSE LET q == SubSeq(p, 1, n)
       IN  IF q \in DOMAIN t THEN IF t[q] = "dir" THEN Made(t, p, n + 1) ELSE t
           ELSE Made([x \in DOMAIN t \cup {q} |-> IF x = q THEN "dir" ELSE t[x]], p, n + 1)
RECURSIVE MadeAll(_, _)
MadeAll(t, ps) == IF ps = <<>> THEN t ELSE MadeAll(Made(t, Parent(ps[1]), 1), Tail(ps))
\* one file path, or many within a folder that exists
MakeFor(base, ps) ==
  /\ tree' = IF base = <<>> \/ (Exists(base) /\ tree[base] = "dir")
             THEN MadeAll(tree, [i \in 1..Len(ps) |-> base \o ps[i]]) ELSE tree
  /\ UNCHANGED <<found, filters>>
\* one folder, with or without permissions, that can be made only within a folder;
\* MadeOne tells whether it is
MadeOne(p) == p # <<>> /\ ~Exists(p) /\ Exists(Parent(p)) /\ tree[Parent(p)] = "dir"
MakeOne(p, k) ==
  /\ k \in {"dir", "closed"}
  /\ tree' = IF MadeOne(p) THEN [x \in DOMAIN tree \cup {p} |-> IF x = p THEN k ELSE tree[x]] ELSE tree
  /\ UNCHANGED <<found, filters>>
=============================================================================
