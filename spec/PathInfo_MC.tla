---------------------------- MODULE PathInfo_MC ------------------------------
(* Every path and folder of few characters.                                     *)
EXTENDS PathInfo, TLC
CONSTANTS MaxLen, MaxFolder
Chars == {97, 98, Slash, Back, Dot}
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
Next == \E s \in Texts(MaxLen) : Load(s)
Spec == Init /\ [][Next]_vars
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<Slash>> \o Join(Tail(ps))
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
\* nothing is lost, and every character is where it belongs
Whole == Folder(path) \o Name(path) \o Ext(path) = path /\ NameExt(path) = Name(path) \o Ext(path)
         /\ NoExt(path) = Folder(path) \o Name(path) /\ ~Has(path, Back)
Proper == /\ ~Has(Name(path), Slash) /\ ~Has(Ext(path), Slash)
          /\ Ext(path) # <<>> => (Ext(path)[1] = Dot /\ ~Has(Tail(Ext(path)), Dot))
          /\ Folder(path) # <<>> => Folder(path)[Len(Folder(path))] = Slash
          /\ (Ext(path) = <<>> /\ Has(Name(path), Dot)) => (Folder(path) = <<>> /\ path[1] = Dot)
Exploded == /\ \A i \in 1..Len(Parts(path)) : ~Has(Parts(path)[i], Slash)
            /\ LET j == Join(Parts(path)) IN Rel(path) \in {j, j \o <<Slash>>}
            /\ Parts(path) # <<>> /\ path[Len(path)] # Slash => Parts(path)[Len(Parts(path))] = NameExt(path)
Caught == \A f \in Texts(MaxFolder) :
  LET b == Branch(path, f)
  IN  \/ b = f \o NameExt(path)
      \/ \E k \in 0..Len(f) : b = SubSeq(f, 1, k) \o Rel(path)      \* the whole path is there
                              /\ (k = 0 \/ IsSep(f[k])) /\ PartAt(f, Parts(path)[1], k + 1)
=============================================================================
