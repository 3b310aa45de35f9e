----------------------------- MODULE Dds_Trace -----------------------------
EXTENDS Dds, TraceBase
VARIABLES l, x
Rec == Trace[l]
After == CASE Rec.op \in {"reset", "new"} -> Fresh
           [] Rec.op = "dims" -> [x EXCEPT !.w = Rec.w, !.h = Rec.h]
           [] Rec.op = "fmt" -> [x EXCEPT !.f = Rec.f, !.alpha = 0, !.pf = DX10, !.on = @ \ {"CubeTexture"}]       \* a newer header of its own
           [] Rec.op = "alpha" -> [x EXCEPT !.alpha = Rec.a]
           [] Rec.op = "named" -> [x EXCEPT !.pf = Named[Rec.name]]
           [] Rec.op = "pf" -> [x EXCEPT !.pf = Rec.pf]
           [] Rec.op = "set" -> [x EXCEPT !.on = IF Rec.v = 1 THEN @ \cup {Rec.name} ELSE @ \ {Rec.name}]
           [] Rec.op = "zero" -> [x EXCEPT !.pf = WithBpp(@, 0)]
           [] Rec.op = "nofmt" -> [x EXCEPT !.f = 0]
           [] Rec.op = "mips" -> Mips(x, Rec.n)
           [] Rec.op = "from" -> From(x).x
           [] Rec.op = "to" -> To(x, Rec.force = 1).x
           [] Rec.op = "bpp" -> Measure(x)
           [] OTHER -> x
Tells == CASE Rec.op = "from" -> Expect("reported", Rec.r, From(x).r)
           [] Rec.op = "to" -> Expect("reported", Rec.r, To(x, Rec.force = 1).r)
           [] Rec.op = "sizes" -> /\ Expect("total", Rec.total, Total(x)) /\ Expect("sizes", Rec.sizes, Sizes(x))
                                  /\ Expect("offsets", Rec.offsets, Offsets(x)) /\ Expect("beyond the levels", Rec.beyond, 0)
           [] Rec.op = "block" -> Expect("block compressed", Rec.is, [i \in 1..130 |-> IF Block(i - 1) THEN 1 ELSE 0])
           [] Rec.op = "same" -> Expect("same", Rec.is, IF x.pf = Named[Rec.name] THEN 1 ELSE 0)
           [] OTHER -> TRUE
TInit == l = 1 /\ x = Fresh
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ Tells
         /\ x' = After
         /\ Rec.op # "reset" => Expect("header", Rec.raw, Bytes148(After))
TSpec == TInit /\ [][TNext]_<<l, x>>
=============================================================================
