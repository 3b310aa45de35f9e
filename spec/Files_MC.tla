------------------------------ MODULE Files_MC ------------------------------
(* Two readers and two writers on two files: opened, moved, used and let go in   *)
(* all orders.  given: what was written to each file since it was last opened    *)
(* for writing; taken: what a reader was given since it opened its file.         *)
EXTENDS Files, TLC
E == INSTANCE Errors
CONSTANTS MaxLen
VARIABLES disk, slot, given, taken
vars == <<disk, slot, given, taken>>
Names == {<<97>>, <<98>>}
R == {"r1", "r2"}
W == {"w1", "w2"}
Init == disk = <<>> /\ slot = [y \in R \cup W |-> NoFile] /\ given = [n \in Names |-> <<>>] /\ taken = [y \in R |-> <<>>]
UsedBy(n, set) == \E y \in set : slot[y].mode = "open" /\ slot[y].name = n
OpenR == \E y \in R, n \in Names :
  /\ ~UsedBy(n, W)
  /\ slot' = [slot EXCEPT ![y] = IF CanRead(disk, {}, n) THEN Opened(slot[y], n) ELSE NotOpened(slot[y], n)]
  /\ taken' = [taken EXCEPT ![y] = <<>>] /\ UNCHANGED <<disk, given>>
OpenW == \E y \in W, n \in Names :
  /\ ~UsedBy(n, (R \cup W) \ {y})
  /\ slot' = [slot EXCEPT ![y] = Opened(slot[y], n)] /\ disk' = With(disk, n, <<>>)
  /\ given' = [given EXCEPT ![n] = <<>>] /\ UNCHANGED taken
Move == \E y, z \in R \cup W :
  /\ y # z /\ (y \in R) = (z \in R) /\ slot[y].mode = "open" /\ slot[z].mode = "none"
  /\ slot' = [slot EXCEPT ![z] = slot[y], ![y] = NoFile]
  /\ taken' = (IF y \in R THEN [taken EXCEPT ![z] = taken[y], ![y] = <<>>] ELSE taken) /\ UNCHANGED <<disk, given>>
Write == \E y \in W, b \in {<<1>>, <<2, 3>>} :
  /\ slot[y].mode = "open" /\ Len(disk[slot[y].name]) + Len(b) <= MaxLen
  /\ disk' = [disk EXCEPT ![slot[y].name] = PutAt(@, slot[y].at, b)]
  /\ slot' = [slot EXCEPT ![y].at = @ + Len(b)]
  /\ given' = [given EXCEPT ![slot[y].name] = @ \o b] /\ UNCHANGED taken
Read == \E y \in R, k \in 1..2 :
  /\ slot[y].mode = "open" /\ slot[y].at + k <= Len(disk[slot[y].name])
  /\ taken' = [taken EXCEPT ![y] = @ \o Part(disk[slot[y].name], slot[y].at, k)]
  /\ slot' = [slot EXCEPT ![y].at = @ + k] /\ UNCHANGED <<disk, given>>
Close == \E y \in R \cup W : /\ slot' = [slot EXCEPT ![y] = NoFile]
                             /\ taken' = (IF y \in R THEN [taken EXCEPT ![y] = <<>>] ELSE taken) /\ UNCHANGED <<disk, given>>
Next == OpenR \/ OpenW \/ Move \/ Write \/ Read \/ Close
Spec == Init /\ [][Next]_vars
\* a file holds what was given to its writer, wherever that one was moved
Holds1 == \A n \in DOMAIN disk : disk[n] = given[n]
\* readers give their file from its start
FromStart == \A y \in R : slot[y].mode = "open" => taken[y] = Part(disk[slot[y].name], 0, slot[y].at)
OneWriter == \A n \in Names : ~(slot["w1"].mode = "open" /\ slot["w2"].mode = "open" /\ slot["w1"].name = slot["w2"].name)
\* headers of letters and digits are told as they are, and no other is told like them
ToldApart == disk = <<>> => \A a, b \in {0, 1, 15, 16, 47, 48, 57, 58, 65, 90, 97, 122, 123, 255} :
  LET t == E!Magic(<<a, b>>) IN
  /\ (E!IsAlnum(a) /\ E!IsAlnum(b)) <=> t = <<a, b>>
  /\ \A c \in {1, 16, 65, 255} : a # 0 /\ c # a => E!Magic(<<c, b>>) # t
=============================================================================
