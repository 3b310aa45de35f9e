----------------------------- MODULE TypedIO_MC -----------------------------
EXTENDS TypedIO
Byte == {0, 1, 2}
Fields == { <<>> } \cup [1..1 -> [1..2 -> Byte]] \cup { <<f, g>> : f \in [1..1 -> Byte], g \in [1..2 -> Byte] }
Next ==
  \/ \E b \in BOOLEAN : SwapWriter(b) \/ SwapReader(b)
  \/ /\ Len(pending) < 2
     /\ \/ \E fs \in Fields : Write(fs)
        \/ \E n \in 0..1, w \in 1..2, f \in [1..2 -> Byte] :
              WriteCounted(w, n, [i \in 1..n |-> f])
        \/ \E f \in [1..2 -> 1..2] : WriteZ(<<f>>, 2)
  \/ /\ pending # <<>>
     /\ Consume([i \in 1..Len(pending[1].fs) |-> Len(pending[1].fs[i])])
Spec == Init /\ [][Next]_vars
=============================================================================
