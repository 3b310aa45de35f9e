----------------------------- MODULE Vec_Trace -----------------------------
EXTENDS Vec, TraceBase
VARIABLES l, eps
Rec == Trace[l]
n == Len(Rec.a)
All(t, f(_, _, _)) == [i \in 1..n |-> f(t, Rec.a[i], Rec.b[i])]
B01(p) == IF p THEN 1 ELSE 0
Right1 == IF Rec.mode \in {"s", "S"} THEN Splat(n, Rec.b[1]) ELSE Rec.b
BinOp == /\ Expect("result", Rec.out, Bin(Rec.t, Rec.what, Rec.a, Right1))
         /\ Expect("left operand", Rec.left, IF Rec.mode \in {"S", "V"} THEN Rec.out ELSE Rec.a)
         /\ (Rec.mode \in {"S", "V"} => Expect("itself", Rec.self, 1))
Shift == LET by(i) == IF Rec.mode \in {"s", "S"} THEN Rec.by[1] ELSE Rec.by[i]
         IN  Expect("shifted", Rec.out, [i \in 1..n |-> IF Rec.what = "shl" THEN Left(Rec.t, Rec.a[i], by(i)) ELSE Right(Rec.t, Rec.a[i], by(i))])
Order(b) == LET A(p(_, _)) == B01(\A i \in 1..n : p(Rec.a[i], b[i]))
            IN  <<A(LAMBDA x, y : x < y), A(LAMBDA x, y : x > y), A(LAMBDA x, y : x <= y), A(LAMBDA x, y : x >= y)>>
Cmp == /\ Expect("equal", Rec.eq, B01(Rec.a = Rec.b)) /\ Expect("unequal", Rec.ne, B01(Rec.a # Rec.b))
       /\ (Rec.t = "sf" => Expect("order", Rec.ord, Order(Rec.b)) /\ Expect("order to a number", Rec.ords, Order(Splat(4, Rec.b[1]))))
Swapped(w) == LET s == Len(w) \div n IN [k \in 1..Len(w) |-> w[((k - 1) \div s) * s + s - ((k - 1) % s)]]
Un == /\ (Rec.t \notin {"si", "su"} =>
          /\ Expect("symmetrical", Rec.sym, B01(Sym(Rec.a)))
          /\ (Rec.t # "f" => Expect("sign", Rec.sign, Sign(Rec.t, Rec.a)))
          /\ (~(Unsigned(Rec.t) /\ n = 4) => Expect("negative", Rec.neg, [i \in 1..n |-> Wrap(Rec.t, -Rec.a[i])])))
      /\ (n = 2 => Expect("parts", Rec.swizzle, Rec.a \o Rec.a))
      /\ (n > 2 => Expect("third", <<Rec.z, Rec.Z>>, <<Rec.a[3], Rec.a[3]>>))
      /\ (n > 3 => Expect("fourth", <<Rec.w, Rec.W>>, <<Rec.a[4], Rec.a[4]>>))
      /\ (~Lone(Rec.t) => Expect("swapped", Rec.bytes, Swapped(Rec.was)) /\ Expect("swapped twice", Rec.back, Rec.was)
                          /\ Expect("stream", Rec.stream, Streamed(Rec.t, Rec.a)))
      /\ Expect("text", Rec.text, Text(Rec.t, Rec.a)) /\ Expect("wide text", Rec.wtext, Text(Rec.t, Rec.a))
Conv == LET c(u) == [i \in 1..n |-> To(Rec.t, u, Rec.a[i])] IN
  /\ Expect("i8", Rec.i8, c("i8")) /\ Expect("i16", Rec.i16, c("i16")) /\ Expect("i32", Rec.i32, c("i32")) /\ Expect("f", Rec.f, c("f"))
  /\ (~Float(Rec.t) => Expect("u8", Rec.u8, c("u8")) /\ Expect("u16", Rec.u16, c("u16")) /\ Expect("u32", Rec.u32, c("u32")))
Met == Rec.t \notin {"si", "su"} =>
  /\ Expect("dot", Rec.dot, Dot(Rec.t, Rec.a, Rec.b))
  /\ (n = 3 \/ Rec.t = "sf" => Expect("cross", Rec.cross, Cross(Rec.t, Rec.a, Rec.b)))
  /\ (Rec.t = "sf" => Expect("dot everywhere", Rec.dotv, Splat(4, Dot(Rec.t, Rec.a, Rec.b)))
                      /\ Expect("conjugate", Rec.conj, <<-Rec.a[1], -Rec.a[2], -Rec.a[3], Rec.a[4]>>))
Unit(out) ==          \* floating point ones: told in ten thousandths
  IF Rec.len = 0 THEN Expect("normalized", out, [i \in 1..n |-> 0])
  ELSE IF Float(Rec.t) THEN \A i \in 1..n : Holds(<<"normalized", out, Rec.a>>, Abs(out[i]) <= 10001 /\ Abs(out[i] * Rec.len - 10000 * Rec.a[i]) <= Rec.len)
  ELSE Expect("normalized", out, Bin(Rec.t, "div", Rec.a, Splat(n, Rec.len)))
Length == Rec.t \notin {"si", "su"} =>
  /\ Holds(<<"length", Rec.len>>, IsRoot(Rec.t, Rec.len, Rec.a)) /\ Expect("itself", Rec.self, 1)
  /\ Unit(Rec.norm) /\ (Rec.t = "sf" => Unit(Rec.normd))
FitTo == LET g(f) == f \in DOMAIN Rec IN
  /\ (g("two") => Expect("two", Rec.two, Fit(Rec.a, 2))) /\ (g("three") => Expect("three", Rec.three, Fit(Rec.a, 3)))
  /\ (g("four") => Expect("four", Rec.four, Fit(Rec.a, 4))) /\ (g("simd") => Expect("four together", Rec.simd, Fit(Rec.a, 4)))
  /\ (g("simdw") => Expect("and a fourth", Rec.simdw, Rec.a \o <<5120>>))
  /\ (g("int") => Expect("integers", Rec.int, [i \in 1..4 |-> Even(Rec.a[i])]))
  /\ (g("flt") => Expect("floating point", Rec.flt, Rec.a)) /\ (g("other") => Expect("other sign", Rec.other, Rec.a))
  /\ (g("data") => Expect("data", Rec.data, Rec.a))
  /\ Expect("made", Rec.ctor, <<Splat(n, 0), Splat(n, Rec.a[2]), Rec.a, Rec.a>>)
Bits4 == LET b == IF Rec.t \in {"ands", "ors", "xors", "ands=", "ors=", "xors="} THEN [k \in 1..16 |-> Rec.b[((k - 1) % 4) + 1]] ELSE Rec.b
         IN  Expect("bits", Rec.out, CASE Rec.t \in {"and", "and=", "ands", "ands="} -> AndB(Rec.a, b) [] Rec.t \in {"or", "or=", "ors", "ors="} -> OrB(Rec.a, b)
                                       [] Rec.t = "not" -> NotB(Rec.a) [] OTHER -> XorB(Rec.a, b))
NearTo == LET e == IF Rec.t = "s" THEN eps ELSE 1 IN
  /\ Expect("almost equal", Rec.eq, B01(Near(Rec.a, Rec.b, e))) /\ Expect("not even almost", Rec.ne, B01(~Near(Rec.a, Rec.b, e)))
  /\ (Rec.t = "s" => /\ Expect("order", Rec.le, <<B01(\A i \in 1..4 : Rec.a[i] <= Rec.b[i] + e), B01(\A i \in 1..4 : Rec.a[i] >= Rec.b[i] - e)>>)
                     /\ (eps = 0 => Expect("symmetrical", Rec.sym, B01(Sym(Rec.a)))))
Elem == LET v == Rec.out[Rec.k + 1]  o(i) == IF i = Rec.k + 1 THEN 0 ELSE Rec.a[i] IN
  /\ Expect("element", Rec.out, [i \in 1..4 |-> IF i = Rec.k + 1 THEN v ELSE Rec.a[i]]) /\ Expect("and of any place", Rec.var, Rec.out)
  /\ Holds(<<"unit", v>>, v >= 0 /\ v <= 1025 /\ Abs(v * v + SumOf([i \in 1..4 |-> o(i) * o(i)]) - 1048576) <= v + 1)
TInit == l = 1 /\ eps = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "bin" -> BinOp [] Rec.op = "shift" -> Shift [] Rec.op = "cmp" -> Cmp [] Rec.op = "un" -> Un [] Rec.op = "conv" -> Conv
              [] Rec.op = "met" -> Met [] Rec.op = "len" -> Length [] Rec.op = "fit" -> FitTo [] Rec.op = "bits" -> Bits4 [] Rec.op = "near" -> NearTo
              [] Rec.op = "elem" -> Elem [] OTHER -> TRUE
         /\ eps' = IF Rec.op = "reset" THEN 1 ELSE IF Rec.op = "eps" THEN Rec.e ELSE eps
TSpec == TInit /\ [][TNext]_<<l, eps>>
=============================================================================
