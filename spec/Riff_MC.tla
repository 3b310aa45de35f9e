------------------------------ MODULE Riff_MC -------------------------------
(* Files grow chunk by chunk and are walked over from the first chunk: every    *)
(* chunk is come across once, in order, and the walk ends at the end.           *)
EXTENDS Riff
CONSTANTS MaxChunks, MaxData
VARIABLES cs, file, starts
vars == <<cs, file, starts>>
\* data that looks like a header, too
Datas == UNION {{Zero(2 * k), [i \in 1..(2 * k) |-> 255], SubSeq(Nm.data \o Small(4, 2) \o Nm.fmt, 1, 2 * k)} : k \in 0..MaxData}
Ids == {Nm.fmt, Nm.data, <<76, 73, 83, 84>>}
Init == cs = <<>> /\ file = File(<<>>) /\ starts = <<>>
Append1 == /\ Len(cs) < MaxChunks
           /\ \E i \in Ids, d \in Datas : cs' = Append(cs, [id |-> i, d |-> d])
           /\ starts' = Append(starts, Len(file))
           /\ file' = File(cs')
Spec == Init /\ [][Append1]_vars
Found == Walk(file, 12) = starts
Whole == Num(SubSeq(file, 5, 8)) + 8 = Len(file)
Told == \A i \in 1..Len(cs) : /\ IdAt(file, starts[i]) = cs[i].id
                              /\ SubSeq(file, starts[i] + 9, starts[i] + 8 + SizeAt(file, starts[i])) = cs[i].d
\* what is there stays where it is, but for the size of the whole
Kept == [][SubSeq(file', 9, Len(file)) = SubSeq(file, 9, Len(file))]_vars
=============================================================================
