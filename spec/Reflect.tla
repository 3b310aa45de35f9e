------------------------------ MODULE Reflect ------------------------------
(* An object of a reflected class and its access by text                      *)
(* (datas/reflector.hpp): a member is addressed by number, name or alias;      *)
(* text is parsed into it and printed from it; items of arrays, elements of    *)
(* vectors and single flags are addressed by further numbers.                  *)
(* Texts are sequences of character codes, numbers little-endian byte words.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == INSTANCE Bytes
VARIABLES sch,      \* the class: fields (name, alias, description, type)
          val       \* the value of each field; one word for a bit field class
vars == <<sch, val>>

None == 0  SignMismatch == 1  OutOfRange == 2  InvalidFormat == 3
InvalidDestination == 4  EmptyInput == 5  ShortInput == 6

\* ------------------------------------------------------------------ text
SP == 32  TAB == 9  MINUS == 45  COMMA == 44  BAR == 124  DOT == 46
Blank(c) == c = SP \/ c = TAB
RECURSIVE SkipB(_)
SkipB(s) == IF s # <<>> /\ Blank(s[1]) THEN SkipB(Tail(s)) ELSE s
RECURSIVE SkipE(_)
SkipE(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN SkipE(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimB(s) == SkipE(SkipB(s))
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))

TTrue == <<116, 114, 117, 101>>
TFalse == <<102, 97, 108, 115, 101>>
TNull == <<78, 85, 76, 76>>
TSub == <<83, 85, 66, 67, 76, 65, 83, 83, 95, 84, 89, 80, 69>>
TInf == <<105, 110, 102>>
THex == <<48, 120>>

\* ------------------------------------------------------------- whole numbers
DigitVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87
                 [] c \in 65..70 -> c - 55 [] OTHER -> 99
RECURSIVE Digits(_, _)                       \* the leading digits of s
Digits(s, base) == IF s # <<>> /\ DigitVal(s[1]) < base
                   THEN <<DigitVal(s[1])>> \o Digits(Tail(s), base) ELSE <<>>
RECURSIVE Mag(_, _, _)
Mag(ds, base, acc) == IF ds = <<>> THEN acc
                      ELSE Mag(Tail(ds), base, B!Add(B!MulSmall(acc, base), B!Small(16, ds[1])))
ParseInt(s) ==
  LET neg == s # <<>> /\ s[1] = MINUS
      p == IF neg THEN Tail(s) ELSE s
      hex == Starts(p, THex)
      base == IF hex THEN 16 ELSE 10
      ds == Digits(IF hex THEN From(p, 3) ELSE p, base)
  IN  [ok |-> ds # <<>>, neg |-> neg, m |-> Mag(ds, base, B!Zero(16))]

\* 2^k as a word of 16 bytes
Pow2(k) == B!FromBits(16, LAMBDA i : IF i = k THEN 1 ELSE 0)
One16 == B!Small(16, 1)

\* the number written in s as a word of 16 bytes, fitted into w bits
FitInt(s, w, sg) ==
  LET p == ParseInt(s)
      smax == B!Sub(Pow2(w - 1), One16)
      umax == B!Sub(Pow2(w), One16)
  IN  IF ~p.ok THEN [e |-> InvalidFormat, v |-> <<>>]
      ELSE IF sg THEN
        IF p.neg /\ B!Lt(Pow2(w - 1), p.m) THEN [e |-> OutOfRange, v |-> B!Neg(Pow2(w - 1))]
        ELSE IF ~p.neg /\ B!Lt(smax, p.m) THEN [e |-> OutOfRange, v |-> smax]
        ELSE [e |-> None, v |-> IF p.neg THEN B!Neg(p.m) ELSE p.m]
      ELSE
        IF p.neg /\ B!Lt(B!Sub(Pow2(64), One16), p.m) THEN [e |-> OutOfRange, v |-> umax]
        ELSE IF p.neg THEN [e |-> SignMismatch, v |-> B!AndB(B!Neg(p.m), umax)]
        ELSE IF B!Lt(umax, p.m) THEN [e |-> OutOfRange, v |-> umax]
        ELSE [e |-> None, v |-> p.m]

\* ------------------------------------------------------------ floating point
\* Values that are whole multiples of 1/16 below 2^24/16 are exact in both sizes; they
\* and the limits of the types are what the specification computes with.
RECURSIVE Msb(_)
Msb(x) == IF x <= 1 THEN 0 ELSE 1 + Msb(x \div 2)
RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
MBits(n) == IF n = 4 THEN 23 ELSE 52
EBits(n) == IF n = 4 THEN 8 ELSE 11
Bias(n) == IF n = 4 THEN 127 ELSE 1023
Pack(n, neg, ex, mant(_)) ==
  B!FromBits(n, LAMBDA i : IF i < MBits(n) THEN mant(i)
                           ELSE IF i < 8 * n - 1 THEN (ex \div TwoTo(i - MBits(n))) % 2
                           ELSE IF neg THEN 1 ELSE 0)
FltEnc(n, neg, w16) ==                       \* w16 sixteenths
  IF w16 = 0 THEN Pack(n, neg, 0, LAMBDA i : 0)
  ELSE LET m == Msb(w16)
       IN  Pack(n, neg, Bias(n) + m - 4,
                LAMBDA i : IF i < MBits(n) - m THEN 0
                           ELSE (w16 \div TwoTo(i - (MBits(n) - m))) % 2)
FltMax(n, neg) == Pack(n, neg, 2 * Bias(n), LAMBDA i : 1)
FltMin(n, neg) == Pack(n, neg, 1, LAMBDA i : 0)
FltInf(n, neg) == Pack(n, neg, 2 * Bias(n) + 1, LAMBDA i : 0)

RECURSIVE Num(_, _)
Num(ds, acc) == IF ds = <<>> THEN acc ELSE Num(Tail(ds), acc * 10 + ds[1])
RECURSIVE TenTo(_)
TenTo(k) == IF k = 0 THEN 1 ELSE 10 * TenTo(k - 1)
FitFlt(s, n) ==
  LET neg == s # <<>> /\ s[1] = MINUS
      p == IF neg THEN Tail(s) ELSE s
      ip == Digits(p, 10)
      rest == From(p, Len(ip) + 1)
      fp == IF rest # <<>> /\ rest[1] = DOT THEN Digits(Tail(rest), 10) ELSE <<>>
      rest2 == IF rest # <<>> /\ rest[1] = DOT THEN From(rest, Len(fp) + 2) ELSE rest
      ex == rest2 # <<>> /\ rest2[1] = 101 /\ (ip # <<>> \/ fp # <<>>)
      exneg == ex /\ Len(rest2) > 1 /\ rest2[2] = MINUS
  IN  IF Starts(p, TInf) THEN [e |-> None, v |-> FltInf(n, neg)]
      ELSE IF ip = <<>> /\ fp = <<>> THEN [e |-> InvalidFormat, v |-> <<>>]
      ELSE IF ex /\ Num(ip, 0) # 0            \* beyond the range, by construction of the texts
        THEN [e |-> OutOfRange, v |-> IF exneg THEN FltMin(n, neg) ELSE FltMax(n, neg)]
      ELSE LET q == IF fp = <<>> THEN 0 ELSE (Num(fp, 0) * 16) \div TenTo(Len(fp))
           IN  [e |-> None, v |-> FltEnc(n, neg, Num(ip, 0) * 16 + q)]

\* printing
PadZ(ds, n) == [i \in 1..n |-> IF i <= n - Len(ds) THEN 48 ELSE ds[i - (n - Len(ds))]]
RECURSIVE DecN(_)
DecN(x) == IF x < 10 THEN <<48 + x>> ELSE Append(DecN(x \div 10), 48 + (x % 10))
RECURSIVE NoTrailZ(_)
NoTrailZ(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN NoTrailZ(SubSeq(s, 1, Len(s) - 1)) ELSE s
BitsNum(b, lo, hi) ==       \* value of bits lo..hi
  LET RECURSIVE R(_)
      R(i) == IF i > hi THEN 0 ELSE B!Bit(b, i) + 2 * R(i + 1)
  IN  R(lo)
Limits == <<
  [n |-> 4, mx |-> <<51,46,52,48,50,56,50,101,43,51,56>>,
            mn |-> <<49,46,49,55,53,52,57,101,45,51,56>>],
  [n |-> 8, mx |-> <<49,46,55,57,55,54,57,51,49,51,52,56,54,50,101,43,51,48,56>>,
            mn |-> <<50,46,50,50,53,48,55,51,56,53,56,53,48,55,101,45,51,48,56>>] >>
PrintFlt(b) ==
  LET n == Len(b)
      M == MBits(n)
      neg == B!IsNeg(b)
      sgn == IF neg THEN <<MINUS>> ELSE <<>>
      ex == BitsNum(b, M, 8 * n - 2)
      m == ex - Bias(n) + 4
      w == IF ex = 0 THEN 0 ELSE TwoTo(m) + (IF m = 0 THEN 0 ELSE BitsNum(b, M - m, M - 1))
      fr == NoTrailZ(PadZ(DecN((w % 16) * 625), 4))
      lim == Limits[IF n = 4 THEN 1 ELSE 2]
  IN  IF b = FltInf(n, neg) THEN sgn \o TInf
      ELSE IF b = FltMax(n, neg) THEN sgn \o lim.mx
      ELSE IF b = FltMin(n, neg) THEN sgn \o lim.mn
      ELSE sgn \o DecN(w \div 16) \o (IF fr = <<>> THEN <<>> ELSE <<DOT>> \o fr)

\* ----------------------------------------------------- enumerations and flags
RECURSIVE FindItem(_, _, _)
FindItem(items, name, i) == IF i > Len(items) THEN 0
                            ELSE IF items[i].nm = name THEN i ELSE FindItem(items, name, i + 1)
RECURSIVE FindValue(_, _, _, _)
FindValue(items, v, n, i) == IF i > Len(items) THEN 0
                             ELSE IF B!Trunc(items[i].v, n) = v THEN i
                             ELSE FindValue(items, v, n, i + 1)
RECURSIVE SplitAt(_, _)
SplitAt(s, c) ==                             \* pieces between the c's
  LET is == {i \in 1..Len(s) : s[i] = c}
  IN  IF is = {} THEN <<s>>
      ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j
           IN  <<SubSeq(s, 1, i - 1)>> \o SplitAt(From(s, i + 1), c)
SetFlagBit(b, f, on) == B!FromBits(Len(b), LAMBDA i : IF i = f THEN (IF on THEN 1 ELSE 0) ELSE B!Bit(b, i))
FlagNames(t, s) ==
  LET ps == SplitAt(s, BAR)
      \* nothing at all behind the last separator is not an empty name
      qs == IF ps[Len(ps)] = <<>> THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps
      RECURSIVE R(_, _, _)
      R(i, e, v) ==
        IF i > Len(qs) THEN [e |-> e, v |-> v]
        ELSE LET nm == TrimB(qs[i])
                 k == FindItem(t.items, nm, 1)
             IN  IF nm = <<>> THEN R(i + 1, EmptyInput, v)
                 ELSE IF k # 0 THEN R(i + 1, e, SetFlagBit(v, t.items[k].v[1], TRUE))
                 ELSE R(i + 1, IF nm = TNull THEN e ELSE InvalidFormat, v)
  IN  R(1, None, B!Zero(t.n))

ParseBool(s) == IF Starts(Lower(s), TTrue) THEN [e |-> None, v |-> <<1>>]
                ELSE IF Starts(Lower(s), TFalse) THEN [e |-> None, v |-> <<0>>]
                ELSE [e |-> InvalidFormat, v |-> <<0>>]

\* one flag, set or cleared
SetFlag(t, old, s, f) ==
  IF f >= 8 * t.n THEN [e |-> OutOfRange, v |-> old]
  ELSE LET b == ParseBool(SkipB(s))
       IN  IF b.e # None THEN [e |-> b.e, v |-> old]
           ELSE [e |-> None, v |-> SetFlagBit(old, f, b.v = <<1>>)]

\* ----------------------------------------------------------------- composites
Open(k) == IF k = "arr" THEN 123 ELSE 91
Close(k) == IF k = "arr" THEN 125 ELSE 93
Opening == {91, 34, 40, 123}
Closing == {93, 34, 41, 125}
\* elements between commas that are not inside brackets or quotes
Pieces(s) ==
  LET RECURSIVE R(_, _, _, _)
      R(i, cur, inside, acc) ==
        IF i > Len(s) THEN Append(acc, cur)
        ELSE LET c == s[i]
                 in2 == IF inside THEN c \notin Closing ELSE c \in Opening
             IN  IF c = COMMA /\ ~inside THEN R(i + 1, <<>>, FALSE, Append(acc, cur))
                 ELSE R(i + 1, Append(cur, c), in2, acc)
  IN  R(1, <<>>, FALSE, <<>>)

RECURSIVE SetText(_, _, _)
SetItems(t, old, body) ==
  LET ps == Pieces(body)
      RECURSIVE R(_, _)
      R(i, v) ==
        IF i > Len(ps) THEN [e |-> None, v |-> v]
        ELSE LET p == SkipB(ps[i])
             IN  IF p = <<>> /\ i <= t.cnt THEN [e |-> ShortInput, v |-> v]
                 ELSE IF i > t.cnt THEN [e |-> IF p = <<>> THEN None ELSE OutOfRange, v |-> v]
                 ELSE R(i + 1, [v EXCEPT ![i] = SetText(t.el, v[i], p).v])
  IN  R(1, old)
SetText(t, old, s0) ==
  LET s == SkipB(s0)
  IN  CASE t.k = "bool" -> ParseBool(s)
        [] t.k \in {"int", "uint"} ->
             LET r == FitInt(s, 8 * t.n, t.k = "int")
             IN  [e |-> r.e, v |-> IF r.v = <<>> THEN old ELSE B!Trunc(r.v, t.n)]
        [] t.k = "flt" -> LET r == FitFlt(s, t.n)
                          IN  [e |-> r.e, v |-> IF r.v = <<>> THEN old ELSE r.v]
        [] t.k = "enum" ->
             LET nm == SkipE(s)
                 k == FindItem(t.items, nm, 1)
             IN  IF nm = <<>> THEN [e |-> EmptyInput, v |-> old]
                 ELSE IF k = 0 THEN [e |-> InvalidFormat, v |-> old]
                 ELSE [e |-> None, v |-> B!Trunc(t.items[k].v, t.n)]
        [] t.k = "flags" -> FlagNames(t, s)
        [] t.k = "str" -> [e |-> None, v |-> s]
        [] t.k \in {"arr", "vec"} ->
             LET os == {i \in 1..Len(s) : s[i] = Open(t.k)}
                 cs == {i \in 1..Len(s) : s[i] = Close(t.k)}
             IN  IF os = {} \/ cs = {} THEN [e |-> InvalidFormat, v |-> old]
                 ELSE LET a == CHOOSE i \in os : \A j \in os : i <= j
                          b == CHOOSE i \in cs : \A j \in cs : i >= j
                      IN  IF b < a THEN [e |-> InvalidFormat, v |-> old]
                          ELSE IF b = a + 1 THEN [e |-> EmptyInput, v |-> old]
                          ELSE SetItems(t, old, SubSeq(s, a + 1, b - 1))
        [] OTHER -> [e |-> None, v |-> old]      \* members of class type have no text

RECURSIVE Shown(_, _)
Join(ss, sep) ==
  LET RECURSIVE R(_)
      R(i) == IF i > Len(ss) THEN <<>>
              ELSE IF i = 1 THEN ss[1] \o R(2) ELSE sep \o ss[i] \o R(i + 1)
  IN  R(1)
PrintFlags(t, v) ==
  LET ns == SelectSeq([f \in 1..(8 * t.n) |->
               IF B!Bit(v, f - 1) = 0 THEN 0
               ELSE FindValue(t.items, B!Small(8, f - 1), 8, 1)], LAMBDA k : k # 0)
  IN  IF ns = <<>> THEN TNull
      ELSE Join([i \in 1..Len(ns) |-> t.items[ns[i]].nm], <<SP, BAR, SP>>)
Shown(t, v) ==
  CASE t.k = "bool" -> IF v = <<0>> THEN TFalse ELSE TTrue
    [] t.k = "int" -> B!SDec(v)
    [] t.k = "uint" -> B!Dec(v)
    [] t.k = "flt" -> PrintFlt(v)
    [] t.k = "enum" -> LET k == FindValue(t.items, v, t.n, 1)
                       IN  IF k = 0 THEN <<>> ELSE t.items[k].nm
    [] t.k = "flags" -> PrintFlags(t, v)
    [] t.k = "str" -> v
    [] t.k = "class" -> TSub
    [] t.k \in {"arr", "vec"} ->
         <<Open(t.k)>> \o Join([i \in 1..t.cnt |-> Shown(t.el, v[i])], <<COMMA, SP>>)
                       \o <<Close(t.k)>>

\* ------------------------------------------------------------ bit field classes
BfGet(t, w) == B!FromBits(8, LAMBDA i : IF i < t.n THEN B!Bit(w, t.pos + i)
                                       ELSE IF t.sg = 1 THEN B!Bit(w, t.pos + t.n - 1) ELSE 0)
BfPut(t, w, x) == B!FromBits(Len(w), LAMBDA i : IF i >= t.pos /\ i < t.pos + t.n
                                                THEN B!Bit(x, i - t.pos) ELSE B!Bit(w, i))
BfText(t, w, s) == LET r == FitInt(SkipB(s), t.n, t.sg = 1)
                   IN  [e |-> r.e, v |-> IF r.v = <<>> THEN w ELSE BfPut(t, w, r.v)]
BfPrint(t, w) == IF t.sg = 1 THEN B!SDec(BfGet(t, w)) ELSE B!Dec(BfGet(t, w))

\* ----------------------------------------------------------------- addressing
RECURSIVE NameAt(_, _, _, _)
NameAt(c, key, al, i) ==
  IF i > Len(c.fields) THEN 0
  ELSE IF (IF al THEN c.fields[i].al # <<>> /\ c.fields[i].al = key ELSE c.fields[i].nm = key)
       THEN i ELSE NameAt(c, key, al, i + 1)
\* 0: no such member.  Names go before aliases.
Resolve(c, key) ==
  IF key.id >= 0 THEN (IF key.id < Len(c.fields) THEN key.id + 1 ELSE 0)
  ELSE LET n == NameAt(c, key.nm, FALSE, 1) IN IF n # 0 THEN n ELSE NameAt(c, key.nm, TRUE, 1)

Slot(c, i) == IF c.bf = 1 THEN 1 ELSE i
Put(c, v, i, x) == [v EXCEPT ![Slot(c, i)] = x]
Bad(e, v) == [e |-> e, v |-> v]

SetMember(c, v, key, s) ==
  LET i == Resolve(c, key)
      t == c.fields[i].t
      r == IF c.bf = 1 THEN BfText(t, v[1], s) ELSE SetText(t, v[i], s)
  IN  IF i = 0 THEN Bad(InvalidDestination, v) ELSE [e |-> r.e, v |-> Put(c, v, i, r.v)]

SetItem(c, v, key, sub, s) ==
  LET i == Resolve(c, key)
      t == c.fields[i].t
  IN  IF i = 0 \/ t.k \notin {"arr", "vec", "flags"} THEN Bad(InvalidDestination, v)
      ELSE IF t.k = "flags"
        THEN LET r == SetFlag(t, v[i], s, sub) IN [e |-> r.e, v |-> Put(c, v, i, r.v)]
      ELSE IF sub >= t.cnt THEN Bad(OutOfRange, v)
      ELSE LET r == SetText(t.el, v[i][sub + 1], s)
           IN  [e |-> r.e, v |-> [v EXCEPT ![i][sub + 1] = r.v]]

SetElement(c, v, key, sub, el, s) ==
  LET i == Resolve(c, key)
      t == c.fields[i].t
  IN  IF i = 0 \/ t.k # "arr" \/ t.el.k \notin {"vec", "flags"}
      THEN Bad(InvalidDestination, v)
      ELSE IF sub >= t.cnt THEN Bad(OutOfRange, v)
      ELSE IF t.el.k = "flags"
        THEN LET r == SetFlag(t.el, v[i][sub + 1], s, el)
             IN  [e |-> r.e, v |-> [v EXCEPT ![i][sub + 1] = r.v]]
      ELSE IF el >= t.el.cnt THEN Bad(OutOfRange, v)
      ELSE LET r == SetText(t.el.el, v[i][sub + 1][el + 1], s)
           IN  [e |-> r.e, v |-> [v EXCEPT ![i][sub + 1][el + 1] = r.v]]

\* a number stored without text: kind "int", "uint" or "flt"; x gives the stored word
SetNumber(c, v, key, sub, kind, x(_)) ==
  LET i == Resolve(c, key)
      t == c.fields[i].t
      many == t.k \in {"arr", "vec"}
      lt == IF many THEN t.el ELSE t
  IN  IF i = 0 THEN Bad(InvalidDestination, v)
      ELSE IF (many /\ sub >= t.cnt) \/ (~many /\ sub > 0) THEN Bad(OutOfRange, v)
      ELSE IF lt.k # kind THEN Bad(InvalidDestination, v)
      ELSE [e |-> None, v |-> IF many THEN [v EXCEPT ![i][sub + 1] = x(lt.n)]
                              ELSE [v EXCEPT ![i] = x(lt.n)]]

GetMember(c, v, key) ==
  LET i == Resolve(c, key)
  IN  IF i = 0 THEN <<>>
      ELSE IF c.bf = 1 THEN BfPrint(c.fields[i].t, v[1]) ELSE Shown(c.fields[i].t, v[i])
FlagText(v, f) == IF B!Bit(v, f) = 1 THEN TTrue ELSE TFalse
GetItem(c, v, key, sub) ==
  LET i == Resolve(c, key)
      t == c.fields[i].t
  IN  IF i = 0 THEN <<>>
      ELSE IF t.k = "flags" THEN (IF sub < 8 * t.n THEN FlagText(v[i], sub) ELSE <<>>)
      ELSE IF t.k \in {"arr", "vec"} /\ sub < t.cnt THEN Shown(t.el, v[i][sub + 1]) ELSE <<>>
GetElement(c, v, key, sub, el) ==
  LET i == Resolve(c, key)
      t == c.fields[i].t
  IN  IF i = 0 \/ t.k # "arr" \/ sub >= t.cnt THEN <<>>
      ELSE IF t.el.k = "vec" /\ el < t.el.cnt THEN Shown(t.el.el, v[i][sub + 1][el + 1])
      ELSE IF t.el.k = "flags" /\ el < 8 * t.el.n THEN FlagText(v[i][sub + 1], el)
      ELSE <<>>
Pair(c, v, key, al, fm) ==
  LET i == Resolve(c, key)
      f == c.fields[i]
      x == GetMember(c, v, key)
  IN  IF i = 0 THEN [nm |-> <<>>, txt |-> <<>>]
      ELSE [nm |-> IF c.named = 0 THEN <<>> ELSE IF al /\ f.al # <<>> THEN f.al ELSE f.nm,
            txt |-> IF fm /\ f.d1 # <<>>
                    THEN f.d1 \o <<SP>> \o x \o (IF f.d2 # <<>> THEN <<SP>> \o f.d2 ELSE <<>>)
                    ELSE x]
IsArr(c, key) == LET i == Resolve(c, key) IN i # 0 /\ c.fields[i].t.k = "arr"
IsSub(c, key) == LET i == Resolve(c, key)
                     t == c.fields[i].t
                 IN  i # 0 /\ (t.k = "class" \/ (t.k = "arr" /\ t.el.k = "class"))
\* the class and value of a member of class type; none: cls = 0
SubClass(c, v, key, sub) ==
  LET i == Resolve(c, key)
      t == c.fields[i].t
  IN  IF i = 0 THEN [ok |-> FALSE]
      ELSE IF t.k = "class" /\ sub = 0 THEN [ok |-> TRUE, c |-> t.c, v |-> v[i], i |-> i, many |-> FALSE]
      ELSE IF t.k = "arr" /\ t.el.k = "class" /\ sub < t.cnt
        THEN [ok |-> TRUE, c |-> t.el.c, v |-> v[i][sub + 1], i |-> i, many |-> TRUE]
      ELSE [ok |-> FALSE]
=============================================================================
