------------------------------ MODULE Pointers ------------------------------
(* Offsets stored in a block of memory become pointers in place                 *)
(* (datas/pointer.hpp): each once, however often it is come across, until the   *)
(* record of what has been made a pointer is cleared; every thread has its own. *)
EXTENDS Integers, Sequences
\* A slot holds [k |-> "raw", v], a number nobody has made a pointer of, or
\* [k |-> "at", v], a pointer to the place v of the block. Zero is null.
Null == [k |-> "raw", v |-> 0]
\* what making a pointer of slot i from the beginning root on does: <<told, mem, used>>
Made(mem, used, i, root, noCheck) ==
  IF ~noCheck /\ i \in used THEN <<FALSE, mem, used>>
  ELSE IF mem[i] = Null THEN <<FALSE, mem, used \cup {i}>>
  ELSE <<TRUE, [mem EXCEPT ![i] = [k |-> "at", v |-> root + mem[i].v]], used \cup {i}>>
Set(mem, i, at) == [mem EXCEPT ![i] = [k |-> "at", v |-> at]]
SetNull(mem, i) == [mem EXCEPT ![i] = Null]
=============================================================================
