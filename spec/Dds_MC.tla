------------------------------- MODULE Dds_MC -------------------------------
\* A header goes through changes of format, telling and levels
EXTENDS Dds
CONSTANTS MaxSide, Mipss
VARIABLES x, last
vars == <<x, last>>
Init == /\ \E w \in 1..MaxSide, h \in 1..MaxSide, f \in 0..118, a \in {0, 2} : x = [Fresh EXCEPT !.w = w, !.h = h, !.f = f, !.alpha = a, !.pf = DX10]
        /\ last = [op |-> "new", r |-> 0, x |-> x]
Sized == {1, 3, MaxSide}                    \* the sides at which telling is looked at
Go(op, r) == x' = r.x /\ last' = [op |-> op, r |-> r.r, x |-> x]
Next == /\ last.op \in {"new", "to", "force"}
        /\ \/ /\ x.w \in Sized /\ x.h \in Sized
              /\ (Go("from", From(x)) \/ Go("to", To(x, FALSE)) \/ Go("force", To(x, TRUE)))
           \/ \E n \in Mipss : Go("mips", [r |-> 0, x |-> Mips(Measure(x), n)])
Spec == Init /\ [][Next]_vars
\* what was told the older way is of the same size and kind, and comes back as it was, but for what does not matter
SameBack == last.op = "to" /\ last.r = 0 /\ Told(x) # 0 =>
  /\ Bpp(x.f) = Told(x) \/ x.f \in Video
  /\ Block(x.f) <=> Blocked([x EXCEPT !.f = 0])
  /\ From(x).r = 0 /\ From(x).x.f = x.f /\ (x.alpha = 2 => From(x).x.alpha = 2)
ForcedBack == last.op = "force" /\ last.r = 0 => From(x).r = 0 /\ (Bpp(From(x).x.f) = Bpp(x.f) \/ x.f \in Video)
Reported == last.r = 1 => x = last.x
OnceMore == last.op = "from" /\ last.r = 0 => From(x).r = 1 /\ Told(x) = 0
\* levels: one after another, each with room for its pixels, none smaller than the next
Laid == last.op = "mips" /\ Told(x) # 0 =>
  /\ Len(Sizes(x)) = Max2(1, x.mips)
  /\ \A m \in 1..Len(Sizes(x)) : /\ Sizes(x)[m] * 8 >= Side(x.w, m - 1) * Side(x.h, m - 1) * Told(x) /\ Sizes(x)[m] > 0
                                 /\ (m > 1 => Sizes(x)[m] <= Sizes(x)[m - 1] /\ Offsets(x)[m] = Offsets(x)[m - 1] + Sizes(x)[m - 1])
                                 /\ (Blocked(x) => Sizes(x)[m] % (2 * Told(x)) = 0)
  /\ Total(x) = Offsets(x)[Len(Sizes(x))] + Sizes(x)[Len(Sizes(x))]
Shape == Len(Bytes148(x)) = 148
=============================================================================
