---------------------------- MODULE Blocks_Trace ----------------------------
EXTENDS Blocks, TraceBase
VARIABLES l, kind, w, img
Rec == Trace[l]
Draw == /\ Expect("size", Len(Rec.img), Len(img))
        /\ \A k \in 1..Len(img) : Holds(<<"byte", k, kind, "is", Rec.img[k], "was", img[k]>>, Byte(kind, w, Rec.x, Rec.y, Rec.data, img[k], Rec.img[k], k))
Blue == /\ Expect("size", Len(Rec.out), Len(Rec.a))
        /\ \A k \in 1..Len(Rec.a) :
             IF k % 3 = 1 THEN Holds(<<"third", k, Rec.a, Rec.out>>, Third(Rec.a[k + 1], Rec.a[k + 2], Rec.out[k])) ELSE Expect("kept", Rec.out[k], Rec.a[k])
Unpack == \A i \in 1..3 : Holds(<<"component", i, Rec.out, Rec.c>>, Abs(Rec.out[i] * Full(i) - 10000 * Part(Rec.c, i)) <= Full(i))
TInit == l = 1 /\ kind = "" /\ w = 0 /\ img = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "draw" -> Draw [] Rec.op = "blue" -> Blue [] Rec.op = "unpack" -> Unpack [] OTHER -> TRUE
         /\ CASE Rec.op = "reset" -> kind' = "" /\ w' = 0 /\ img' = <<>>
              [] Rec.op = "image" -> kind' = Rec.kind /\ w' = Rec.w /\ img' = Rec.img
              [] Rec.op = "draw" -> img' = Rec.img /\ UNCHANGED <<kind, w>>
              [] OTHER -> UNCHANGED <<kind, w, img>>
TSpec == TInit /\ [][TNext]_<<l, kind, w, img>>
=============================================================================
