--------------------------- MODULE BitFields_Trace ---------------------------
EXTENDS BitFields, TraceBase
B == INSTANCE Bytes
VARIABLE l
Rec == Trace[l]
W(bytes) == [b \in 0..(nb-1) |-> B!Bit(bytes, b)]
TInit == l = 1 /\ lay = <<1>> /\ nb = 8 /\ val = [b \in 0..7 |-> 0]
\* a session uses one storage type and one list of members
Reset == /\ Rec.op = "reset" /\ lay' = Rec.lay /\ nb' = Rec.nb
         /\ val' = [b \in 0..(Rec.nb-1) |-> B!Bit(Rec.v, b)]
Seen == \* after every call the driver reports storage and every member
  /\ Expect("ok", Rec.ok, 1)
  /\ Expect("storage", W(Rec.val), val')
  /\ \A i \in 1..Len(lay) :
       Expect("member", W(Rec.ms[i]), [b \in 0..(nb-1) |-> IF b < lay[i] THEN val'[Pos(i) + b] ELSE 0])
SetC == Rec.op = "set" /\ Set(Rec.i, W(Rec.w)) /\ Seen
AssC == Rec.op = "ass" /\ Assign(W(Rec.w)) /\ Seen
SwapC == Rec.op = "swap" /\ Swap(Rec.out = 1) /\ Seen
\* through a byte swapped writer: the bytes are those of the outgoing form, and a byte
\* swapped reader gets the members back
\* (a one byte storage is transferred as it is)
IoC == /\ Rec.op = "io"
       /\ Assign(IF nb = 8 THEN val ELSE MembersOnly(val)) /\ Seen
       /\ Expect("bytes written", W(Rec.out), IF nb = 8 THEN val ELSE SwapOut(val))
\* the bits of a member alone, as they lie and as they lie in the other byte order
MaskC == /\ Rec.op = "mask" /\ UNCHANGED vars
         /\ LET N == Rec.nb
                 Bits(bytes) == {b \in 0..(N-1) : B!Bit(bytes, b) = 1}
            IN  /\ Expect("ok", Rec.ok, 1)
                /\ Expect("mask", Bits(Rec.val), Rec.pos..(Rec.pos + Rec.size - 1))
                /\ Expect("mirrored mask", Bits(Rec.mirror), (N - Rec.pos - Rec.size)..(N - Rec.pos - 1))
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ SetC \/ AssC \/ SwapC \/ IoC \/ MaskC)
TSpec == TInit /\ [][TNext]_<<vars, l>>
TSwapInverse == SwapInverse
=============================================================================
