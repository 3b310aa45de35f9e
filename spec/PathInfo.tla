------------------------------ MODULE PathInfo -------------------------------
(* Splitting of paths (datas/fileinfo.hpp). A path is a sequence of character   *)
(* numbers.                                                                     *)
EXTENDS Integers, Sequences
VARIABLE path              \* the loaded path, with / for both separators
vars == <<path>>
Slash == 47
Back == 92
Dot == 46
Norm(s) == [i \in 1..Len(s) |-> IF s[i] = Back THEN Slash ELSE s[i]]
RECURSIVE LastOf(_, _, _)
LastOf(s, c, i) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE LastOf(s, c, i - 1)

Cut(s) == LastOf(s, Slash, Len(s))                 \* the folder is 1..Cut
\* where the extension starts; a dot at the very start of the path starts none
ExtAt(s) == LET d == LastOf(s, Dot, Len(s)) IN IF d <= Cut(s) \/ d = 1 THEN Len(s) + 1 ELSE d
Folder(s) == SubSeq(s, 1, Cut(s))
Ext(s) == SubSeq(s, ExtAt(s), Len(s))
Name(s) == SubSeq(s, Cut(s) + 1, ExtAt(s) - 1)
NameExt(s) == SubSeq(s, Cut(s) + 1, Len(s))
NoExt(s) == SubSeq(s, 1, ExtAt(s) - 1)

\* the parts between separators; one leading separator and a trailing one do not count
RECURSIVE SplitAt(_, _)
SplitAt(s, i) ==                                   \* i: the end of the first part is looked for here
  IF i > Len(s) THEN IF s = <<>> THEN <<>> ELSE <<s>>
  ELSE IF s[i] = Slash THEN <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), 1)
  ELSE SplitAt(s, i + 1)
Rel(s) == IF s # <<>> /\ s[1] = Slash THEN Tail(s) ELSE s
Parts(s) == SplitAt(Rel(s), 1)

\* the path put into a folder: overlapping where its first part names a part of the folder
IsSep(c) == c = Slash \/ c = Back
PartAt(f, p, i) ==                                 \* p is a whole part of f, from i on
  /\ i + Len(p) - 1 <= Len(f) /\ SubSeq(f, i, i + Len(p) - 1) = p
  /\ i = 1 \/ IsSep(f[i - 1])
  /\ i + Len(p) - 1 = Len(f) \/ IsSep(f[i + Len(p)])
RECURSIVE FindPart(_, _, _)
FindPart(f, p, i) == IF i > Len(f) THEN 0 ELSE IF PartAt(f, p, i) THEN i ELSE FindPart(f, p, i + 1)
Branch(s, f) ==
  LET ps == Parts(s)
      k == IF ps = <<>> THEN 0 ELSE IF ps[1] = <<>> THEN 0 ELSE FindPart(f, ps[1], 1)
  IN  IF k = 0 THEN f \o NameExt(s) ELSE SubSeq(f, 1, k - 1) \o Rel(s)

Init == path = <<>>
Load(s) == path' = Norm(s)
=============================================================================
