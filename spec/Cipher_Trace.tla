---------------------------- MODULE Cipher_Trace ----------------------------
EXTENDS Cipher, TraceBase
VARIABLES l,
          on   \* whether the encoder was enabled; nothing else depends on it
Rec == Trace[l]
TInit == /\ l = 1 /\ on = 0 /\ alg = "xor" /\ key = <<>> /\ tab = [p |-> <<>>, s |-> <<>>]
         /\ mode = "ECB" /\ vec = <<>>
Same == UNCHANGED vars
All(what, outs, want) == \A i \in 1..Len(outs) : Expect(what, outs[i], want)
Call ==
  CASE Rec.op = "reset" -> New(Rec.alg)
    [] Rec.op = "key" -> SetKey(Rec.k, Rec.v)
    [] Rec.op = "mode" -> SetMode(Rec.m)
    [] Rec.op = "vec" -> SetVector(Rec.v) /\ Expect("vector", Rec.got, Rec.v)
    [] Rec.op = "enable" -> Same
    [] Rec.op = "enc" -> Same /\ All("encoded", Rec.out, Encoded(Rec.t))
    [] Rec.op = "dec" -> Same /\ All("decoded", Rec.out, Decoded(Rec.t))
    [] Rec.op = "encas" -> Same /\ All("encoded as asked", Rec.out, EncodedAs(Rec.m, Rec.t))
    [] Rec.op = "decas" -> Same /\ All("decoded as asked", Rec.out, DecodedAs(Rec.m, Rec.t))
    [] Rec.op = "back" -> Same /\ All("encoded and decoded", Rec.out, Rec.t)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ Call
         /\ on' = (IF Rec.op = "reset" THEN 0 ELSE IF Rec.op = "enable" THEN (IF Rec.n = 0 THEN 0 ELSE 1) ELSE on)
         /\ Expect("enabled", Rec.on, on')
         /\ vec' # <<>> /\ alg' # "xor" => Expect("vector kept", Rec.vec, vec')
TSpec == TInit /\ [][TNext]_<<vars, l, on>>
=============================================================================
