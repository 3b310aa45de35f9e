---------------------------- MODULE Base128_Trace ----------------------------
(* Recorded writes and reads of the real codec, 64-bit words (G = 7, N = 8).    *)
EXTENDS Base128, TraceBase
B == INSTANCE Bytes
VARIABLE l
WordOf(bytes) == [i \in 0..63 |-> B!Bit(bytes, i)]
TInit == Init /\ l = 1
Rec == Trace[l]
Reset == Rec.op = "reset" /\ stream' = <<>> /\ pending' = <<>>
Write ==
  /\ Rec.op = "w"
  /\ WriteV(Rec.sg = 1, WordOf(Rec.v))
  /\ Expect("ok", Rec.ok, 1)
  /\ Expect("bytes written", Rec.out, Encode(Rec.sg = 1, WordOf(Rec.v)))
Read ==
  /\ Rec.op = "r"
  /\ ReadV
  /\ Expect("ok", Rec.ok, 1)
  /\ Expect("signedness (driver)", Rec.sg = 1, pending[1].s)
  /\ Expect("value read", WordOf(Rec.got), pending[1].v)
  /\ Expect("value returned", Rec.ret, Rec.got)
  /\ Expect("bytes left", Rec.left, Len(stream'))
\* decoding arbitrary bytes (not written by the encoder): value and consumption
Raw ==
  /\ Rec.op = "raw"
  /\ UNCHANGED vars
  /\ Expect("ok", Rec.ok, 1)
  /\ Expect("value decoded", WordOf(Rec.got), Decode(Rec.sg = 1, Rec.b))
  /\ Expect("bytes consumed", Rec.used, FirstLen(Rec.b, 1))
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ (Reset \/ Write \/ Read \/ Raw)
TSpec == TInit /\ [][TNext]_<<vars, l>>
\* the specification's own invariants, evaluated on every recorded state
TReadsBackFirst == ReadsBackFirst
=============================================================================
