-------------------------------- MODULE Files --------------------------------
(* Readers and writers of files.  disk: the bytes of every file there is; shut:  *)
(* files nobody may open.  slots: what the user's objects are:                   *)
(*   mode "none" (nothing opened yet, or moved from), "open" or "failed",        *)
(*   the name of the file open, the place in it, the byte order asked for.       *)
(* What a writer was given is in the file at the latest when it is gone, opens   *)
(* another, or is moved and that one is gone.                                    *)
EXTENDS Integers, Sequences
NoFile == [mode |-> "none", name |-> <<>>, at |-> 0, swap |-> 0]
IsThere(disk, n) == n \in DOMAIN disk
CanRead(disk, shut, n) == IsThere(disk, n) /\ n \notin shut
\* names with a folder in them lead to folders that are not there
HasFolder(n) == \E k \in DOMAIN n : n[k] = 47
CanWrite(disk, shut, n) == n # <<>> /\ ~HasFolder(n) /\ n \notin shut
Opened(s, n) == [s EXCEPT !.mode = "open", !.name = n, !.at = 0]
NotOpened(s, n) == [s EXCEPT !.mode = "failed", !.name = <<>>, !.at = 0]
With(disk, n, d) == [x \in DOMAIN disk \cup {n} |-> IF x = n THEN d ELSE disk[x]]
\* bytes put at a place, over what is there and beyond
PutAt(d, at, b) ==
  [k \in 1..(IF at + Len(b) > Len(d) THEN at + Len(b) ELSE Len(d)) |->
     IF k > at /\ k <= at + Len(b) THEN b[k - at] ELSE IF k <= Len(d) THEN d[k] ELSE 0]
Part(d, at, n) == SubSeq(d, at + 1, at + n)
Flip(b, swap) == IF swap = 1 THEN <<b[2], b[1]>> ELSE b
=============================================================================
