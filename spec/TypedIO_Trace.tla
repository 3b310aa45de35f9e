---------------------------- MODULE TypedIO_Trace ----------------------------
EXTENDS TypedIO, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == Init /\ l = 1
Reset == Rec.op = "reset" /\ stream' = <<>> /\ wswap' = FALSE /\ rswap' = FALSE /\ pending' = <<>>
Swap == \/ Rec.op = "ws" /\ SwapWriter(Rec.on = 1) /\ Expect("ok", Rec.ok, 1)
        \/ Rec.op = "rs" /\ SwapReader(Rec.on = 1) /\ Expect("ok", Rec.ok, 1)
Wrote == /\ Expect("ok", Rec.ok, 1)
         /\ Expect("bytes written", Rec.out, SubSeq(stream', Len(stream) + 1, Len(stream')))
W == Rec.op = "w" /\ Write(Rec.fs) /\ Wrote
WC == Rec.op = "wc" /\ WriteCounted(Rec.cw, Rec.n, Rec.fs) /\ Wrote
WZ == Rec.op = "wz" /\ WriteZ(Rec.fs, Rec.cw) /\ Wrote
\* reads: the driver reports the fields of the object it filled
Got(ws) == /\ Expect("ok", Rec.ok, 1)
           /\ Expect("value read", Rec.got, Flat(In(ws)))
           /\ Expect("bytes left", Rec.left, Len(stream'))
R == Rec.op = "r" /\ Consume(Rec.ws) /\ Got(Rec.ws)
RC == /\ Rec.op = "rc" /\ Consume(CountedWidths(Rec.cw, Rec.ws))
      /\ Expect("ok", Rec.ok, 1)
      /\ Expect("items read", Rec.got, Flat(Tail(In(CountedWidths(Rec.cw, Rec.ws)))))
      /\ Expect("bytes left", Rec.left, Len(stream'))
RZ == /\ Rec.op = "rz" /\ Consume(ZWidths(Rec.cw))
      /\ Expect("ok", Rec.ok, 1)
      /\ Expect("string read", Rec.got, Flat(Front(In(ZWidths(Rec.cw)))))
      /\ Expect("bytes left", Rec.left, Len(stream'))
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Swap \/ W \/ WC \/ WZ \/ R \/ RC \/ RZ)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
