------------------------------ MODULE ReflDB_MC ------------------------------
(* Two databases and one stream: every sequence of few steps.                   *)
EXTENDS ReflDB, FiniteSets, TLC
CONSTANTS Steps
VARIABLES n, saved      \* saved: where a database was saved, and what it was
T(i) == [k \in 1..16 |-> (i * 16) + k]
Toy(s) == <<Len(s), IF s = <<>> THEN 0 ELSE s[1], 9, 9>>
Classes == {
  [h |-> <<1, 2, 3, 4>>, t |-> <<T(0), T(1)>>, nm |-> <<<<<<97>>, <<98, 99>>>>>>, cn |-> <<<<75>>>>,
   al |-> <<<<<<>>, <<<<120>>>>>>>>, ah |-> <<<<Z(4), <<5, 6, 7, 8>>>>>>, ds |-> <<<<<<<<>>, <<>>>>, <<<<100>>, <<101, 102>>>>>>>>],
  [h |-> Z(4), t |-> <<T(2)>>, nm |-> <<>>, cn |-> <<>>, al |-> <<>>, ah |-> <<>>, ds |-> <<>>],
  [h |-> <<9, 9, 9, 9>>, t |-> <<T(3)>>, nm |-> <<<<<<97>>>>>>, cn |-> <<<<76, 77>>>>, al |-> <<>>, ah |-> <<>>, ds |-> <<>>]}
Enums == {[h |-> <<1, 1, 1, 1>>, nm |-> <<<<65>>, <<66, 67>>>>, v |-> <<Z(8), <<1, 0, 0, 0, 0, 0, 0, 128>>>>, cn |-> <<69>>],
          [h |-> <<2, 1, 1, 1>>, nm |-> <<<<68>>>>, v |-> <<<<3, 0, 0, 0, 0, 0, 0, 0>>>>, cn |-> <<70, 71>>]}
Bad == {<<82, 70, 68, 67>> \o Z(28), Magic \o N4(Version + 1) \o Z(24)}
Init == dbs = <<Empty, Empty>> /\ file = <<>> /\ pos = 0 /\ n = 0 /\ saved = {}
Small == \A s \in 1..2 : Len(dbs[s].c) + Len(dbs[s].e) <= 3
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E s \in 1..2, c \in Classes : Len(dbs[s].c) < 2 /\ AddClass(s, c) /\ UNCHANGED saved
           \/ \E s \in 1..2, e \in Enums : Len(dbs[s].e) < 2 /\ AddEnum(s, e) /\ UNCHANGED saved
           \/ \E s \in 1..2 : SaveAs(s, Encode(dbs[s])) /\ saved' = saved \cup {<<Len(file), dbs[s]>>}
           \/ \E b \in Bad : Foreign(b) /\ UNCHANGED saved
           \/ \E p \in {x[1] : x \in saved} : p # pos /\ Seek(p) /\ UNCHANGED saved
           \/ \E s \in 1..2 : Load(s) /\ UNCHANGED saved
Spec == Init /\ [][Next]_<<vars, n, saved>>
\* every database still means what it was when saved, wherever it is in the stream
Kept == \A x \in saved : Decode(file, x[1]) = x[2]
\* something can be saved always
Saveable == \A s \in 1..2 : LET b == Encode(dbs[s]) IN Len(b) = SizeAt(b, 0) /\ Decode(b, 0) = dbs[s]
Loaded == [][\A s \in 1..2 : (pos' > pos /\ dbs'[s] # dbs[s]) =>
             (<<pos, dbs'[s]>> \in saved /\ dbs'[3 - s] = dbs[3 - s] /\ pos' = pos + Len(Encode(dbs'[s])))]_<<vars, n, saved>>
=============================================================================
