----------------------------- MODULE Files_Trace -----------------------------
EXTENDS Files, TraceBase
E == INSTANCE Errors
VARIABLES l, disk, shut, slot
vars == <<l, disk, shut, slot>>
Rec == Trace[l]
x == Rec.x
s == slot[x]
Slots == {"r1", "r2", "r3", "w1", "w2", "w3"}
Fresh == [y \in Slots |-> NoFile]
Reads == Rec.rw = "r"
\* what opening a file leads to: the object, the disk, and the error told
Able == IF Reads THEN CanRead(disk, shut, Rec.name) ELSE CanWrite(disk, shut, Rec.name)
ErrorOf == IF Reads THEN "FileNotFoundError" ELSE "FileInvalidAccessError"
TextOf == E!Naming(IF Reads THEN E!CannotOpen ELSE E!CannotAccess, Rec.name)
Open(was) ==
  IF Able
  THEN /\ Expect("error", Rec.err, "")
       /\ slot' = [slot EXCEPT ![x] = Opened(was, Rec.name)]
       /\ disk' = IF Reads THEN disk ELSE With(disk, Rec.name, <<>>)
  ELSE /\ Expect("error", Rec.err, ErrorOf) /\ Expect("text", Rec.msg, TextOf)
       /\ slot' = [slot EXCEPT ![x] = IF Rec.op = "make" THEN NoFile ELSE NotOpened(was, Rec.name)]
       /\ UNCHANGED disk
Same == UNCHANGED <<disk, slot>>
Reset == disk' = <<>> /\ slot' = Fresh
Content == disk[s.name]
Read == LET d == Content IN
  IF s.at + Rec.n <= Len(d)
  THEN /\ Expect("valid", Rec.v, 1) /\ Expect("bytes", Rec.d, Part(d, s.at, Rec.n))
       /\ slot' = [slot EXCEPT ![x].at = @ + Rec.n] /\ UNCHANGED disk
  ELSE \* past the end: nothing more from this file
       Expect("valid", Rec.v, 0) /\ slot' = [slot EXCEPT ![x] = NotOpened(s, s.name)] /\ UNCHANGED disk
Read16 == /\ Expect("number", Rec.d, Flip(Part(Content, s.at, 2), s.swap))
          /\ slot' = [slot EXCEPT ![x].at = @ + 2] /\ UNCHANGED disk
Write(b) == /\ disk' = [disk EXCEPT ![s.name] = PutAt(@, s.at, b)]
            /\ slot' = [slot EXCEPT ![x].at = @ + Len(b)]
TInit == l = 1 /\ disk = <<>> /\ shut = {} /\ slot = Fresh
Text(t) == /\ Expect("error", Rec.err, "") /\ Expect("text", Rec.msg, t)
Error == /\ Same
  /\ CASE Rec.k = "plainfile" -> Text(E!Plain(E!CannotOpen))
       [] Rec.k = "plainaccess" -> Text(E!Plain(E!CannotAccess))
       [] Rec.k = "plainheader" -> Text(E!Plain(E!BadFormat))
       [] Rec.k = "plainversion" -> Text(E!Plain(E!BadVersion))
       [] Rec.k = "plainend" -> Text(E!EndOfStream)
       [] Rec.k = "file" -> Text(E!Naming(E!CannotOpen, Rec.s))
       [] Rec.k = "access" -> Text(E!Naming(E!CannotAccess, Rec.s))
       [] Rec.k = "header" -> Text(E!Naming(E!BadFormat, Rec.s))
       [] Rec.k = "version" -> Text(E!Naming(E!BadVersion, Rec.s))
       [] Rec.k = "magic" -> Text(E!Naming(E!BadFormat, E!Magic(IF Rec.n >= 0 /\ Rec.n < Len(Rec.b) THEN SubSeq(Rec.b, 1, Rec.n) ELSE Rec.b)))
Step ==
  CASE Rec.op = "reset" -> Reset
    [] Rec.op = "put" -> disk' = With(disk, Rec.name, Rec.d) /\ UNCHANGED slot
    [] Rec.op = "cat" -> /\ Expect("there", Rec.there, IF IsThere(disk, Rec.name) THEN 1 ELSE 0)
                         /\ Expect("content", Rec.d, IF IsThere(disk, Rec.name) THEN disk[Rec.name] ELSE <<>>) /\ Same
    [] Rec.op = "mode" -> Same
    [] Rec.op = "new" -> slot' = [slot EXCEPT ![x] = NoFile] /\ UNCHANGED disk
    [] Rec.op = "make" -> Open(NoFile)
    [] Rec.op = "open" -> Open(s)
    [] Rec.op = "move" -> slot' = [slot EXCEPT ![Rec.y] = s, ![x] = [NoFile EXCEPT !.swap = s.swap]] /\ UNCHANGED disk
    [] Rec.op = "del" -> slot' = [slot EXCEPT ![x] = NoFile] /\ UNCHANGED disk
    [] Rec.op = "valid" -> Expect("valid", Rec.r, IF s.mode = "failed" THEN 0 ELSE 1) /\ Same
    [] Rec.op = "tell" -> Expect("place", Rec.r, s.at) /\ Same
    [] Rec.op = "size" -> Expect("size", Rec.r, Len(Content)) /\ Same
    [] Rec.op = "seek" -> slot' = [slot EXCEPT ![x].at = Rec.n] /\ UNCHANGED disk
    [] Rec.op = "swap" -> slot' = [slot EXCEPT ![x].swap = Rec.n] /\ UNCHANGED disk
    [] Rec.op = "read" -> Read
    [] Rec.op = "read16" -> Read16
    [] Rec.op = "write" -> Write(Rec.d)
    [] Rec.op = "write16" -> Write(Flip(Rec.d, s.swap))
    [] Rec.op = "error" -> Error
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ shut' = (CASE Rec.op = "reset" -> {} [] Rec.op = "mode" -> IF Rec.n = 0 THEN shut \cup {Rec.name} ELSE shut \ {Rec.name} [] OTHER -> shut)
         /\ Step
TSpec == TInit /\ [][TNext]_vars
=============================================================================
