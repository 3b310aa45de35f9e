------------------------------ MODULE BitFields ------------------------------
(* Packed bit field types (datas/bitfield.hpp, datas/internal/bitfield.inl).    *)
(* NB bits made of bytes of BW bits; members are packed from bit 0 upwards.      *)
EXTENDS Integers, Sequences
CONSTANT BW                                    \* bits per byte

VARIABLES lay,      \* sizes of the members, in order
          nb,       \* number of bits of the storage
          val       \* [0..nb-1 -> {0,1}]
vars == <<lay, nb, val>>

RECURSIVE PosOf(_, _)
PosOf(L, i) == IF i = 1 THEN 0 ELSE PosOf(L, i - 1) + L[i - 1]
Total(L) == PosOf(L, Len(L) + 1)
Pos(i) == PosOf(lay, i)

\* the value of member i, as a word of nb bits
GetM(v, i) == [b \in 0..(nb-1) |-> IF b < lay[i] THEN v[Pos(i) + b] ELSE 0]
\* storing word w into member i: truncated to the member, nothing else changes
PutM(v, i, w) == [b \in 0..(nb-1) |->
   IF b >= Pos(i) /\ b < Pos(i) + lay[i] THEN w[b - Pos(i)] ELSE v[b]]

Set(i, w) == val' = PutM(val, i, w) /\ UNCHANGED <<lay, nb>>
Assign(v) == val' = v /\ UNCHANGED <<lay, nb>>

\* Byte order change.  Big-endian bit fields allocate from the most significant bit:
\* members are mirrored (their own bits keep their order) and the bytes reversed.
ByteRev(v) == [b \in 0..(nb-1) |-> v[((nb \div BW) - 1 - (b \div BW)) * BW + (b % BW)]]
MemberAt(b) == {i \in 1..Len(lay) : b >= Pos(i) /\ b < Pos(i) + lay[i]}
Mirror(v) == [b \in 0..(nb-1) |->
   LET s == {i \in 1..Len(lay) : b >= nb - Pos(i) - lay[i] /\ b < nb - Pos(i)}
   IN  IF s = {} THEN 0
       ELSE LET i == CHOOSE x \in s : TRUE
            IN  v[Pos(i) + (b - (nb - Pos(i) - lay[i]))]]
UnMirror(v) == [b \in 0..(nb-1) |->
   IF MemberAt(b) = {} THEN 0
   ELSE LET i == CHOOSE x \in MemberAt(b) : TRUE
        IN  v[(nb - Pos(i) - lay[i]) + (b - Pos(i))]]
SwapOut(v) == ByteRev(Mirror(v))
SwapIn(v) == UnMirror(ByteRev(v))
Swap(out) == val' = (IF out THEN SwapOut(val) ELSE SwapIn(val)) /\ UNCHANGED <<lay, nb>>

\* --------------------------------------------------------------- properties
MembersOnly(v) == [b \in 0..(nb-1) |-> IF b < Total(lay) THEN v[b] ELSE 0]
\* going out and coming back keeps every member
SwapInverse == SwapIn(SwapOut(val)) = MembersOnly(val)
\* a stored member reads back truncated, every other member keeps its value
SetGet == \A i \in 1..Len(lay), w \in {val, [b \in 0..(nb-1) |-> 1], [b \in 0..(nb-1) |-> b % 2]} :
   LET v == PutM(val, i, w)
   IN  /\ \A b \in 0..(lay[i]-1) : GetM(v, i)[b] = w[b]
       /\ \A j \in 1..Len(lay) : j # i => GetM(v, j) = GetM(val, j)
       /\ \A b \in Total(lay)..(nb-1) : v[b] = val[b]
=============================================================================
