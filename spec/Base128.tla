------------------------------- MODULE Base128 -------------------------------
(* The variable-length integer stream (datas/base_128.hpp).                    *)
(* A stream of bytes is written by appending encodings and consumed by reading  *)
(* from the front.  The code is parametric in the group size so that the        *)
(* exhaustive check can enumerate every value of a scaled-down word.            *)
(*   G: payload bits per byte (7), N: number of leading groups (8);             *)
(*   a word has W = G*N + (G+1) bits, the last byte carries G+1 raw bits.       *)
EXTENDS Integers, Sequences
CONSTANTS G, N
W == G * N + G + 1
TOP == 2^G                \* continuation flag
SGN == 2^(G-1)            \* sign flag of a terminating byte

\* A word is a function 0..W-1 -> {0,1}
Word == [0..(W-1) -> {0, 1}]
Compl(v) == [i \in 0..(W-1) |-> 1 - v[i]]
RECURSIVE SumBits(_, _, _, _)
SumBits(v, from, n, k) ==
  IF k = n THEN 0 ELSE v[from + k] * 2^k + SumBits(v, from, n, k + 1)
Group(v, k) == SumBits(v, G * k, G, 0)             \* k-th group of G bits
Last(v)     == SumBits(v, G * N, G + 1, 0)         \* the raw rest
ZeroFrom(v, b) == \A i \in b..(W-1) : v[i] = 0
NegW(v) == v[W-1] = 1

\* ---------------------------------------------------------------- unsigned
RECURSIVE EncU(_, _)
EncU(v, k) ==
  IF k = N THEN <<Last(v)>>
  ELSE IF ZeroFrom(v, G * (k + 1)) THEN <<Group(v, k)>>
  ELSE <<TOP + Group(v, k)>> \o EncU(v, k + 1)
EncodeU(v) == EncU(v, 0)

\* ------------------------------------------------------------------ signed
\* Short form: the magnitude (the value, or its complement when negative) fits the
\* payload of N groups less the sign flag; otherwise the word is sent raw.
RECURSIVE EncShort(_, _, _)
EncShort(m, s, k) ==
  IF ZeroFrom(m, G * k + G - 1)
  THEN <<Group(m, k) + s * SGN>>
  ELSE <<TOP + Group(m, k)>> \o EncShort(m, s, k + 1)
EncodeS(v) ==
  LET m == IF NegW(v) THEN Compl(v) ELSE v
  IN  IF ZeroFrom(m, G * N - 1)
      THEN EncShort(m, IF NegW(v) THEN 1 ELSE 0, 0)
      ELSE [k \in 1..(N+1) |-> IF k = N + 1 THEN Last(v) ELSE TOP + Group(v, k - 1)]

\* ----------------------------------------------------------------- reading
\* number of bytes of the first encoding of a byte sequence
RECURSIVE FirstLen(_, _)
FirstLen(b, k) == IF k = N + 1 \/ b[k] < TOP THEN k ELSE FirstLen(b, k + 1)
BitOf(x, i) == (x \div 2^i) % 2
DecodeU(b) ==
  LET n == FirstLen(b, 1)
  IN  [i \in 0..(W-1) |->
        IF i >= G * N THEN IF n = N + 1 THEN BitOf(b[n], i - G * N) ELSE 0
        ELSE IF (i \div G) + 1 > n THEN 0 ELSE BitOf(b[(i \div G) + 1], i % G)]
DecodeS(b) ==
  LET n == FirstLen(b, 1)
      short == n <= N
      neg == short /\ BitOf(b[n], G - 1) = 1
      raw == [i \in 0..(W-1) |->
               IF i >= G * N THEN IF n = N + 1 THEN BitOf(b[n], i - G * N) ELSE 0
               ELSE IF (i \div G) + 1 > n THEN 0
               ELSE IF short /\ (i \div G) + 1 = n /\ i % G = G - 1 THEN 0
               ELSE BitOf(b[(i \div G) + 1], i % G)]
  IN  IF neg THEN Compl(raw) ELSE raw

-----------------------------------------------------------------------------
VARIABLES stream,     \* bytes written and not yet read
          pending     \* values written and not yet read, with their signedness
vars == <<stream, pending>>

Init == stream = <<>> /\ pending = <<>>
Encode(sg, v) == IF sg THEN EncodeS(v) ELSE EncodeU(v)
Decode(sg, b) == IF sg THEN DecodeS(b) ELSE DecodeU(b)

WriteV(sg, v) ==
  /\ stream' = stream \o Encode(sg, v)
  /\ pending' = Append(pending, [s |-> sg, v |-> v])
ReadV ==
  /\ pending # <<>>
  /\ stream' = SubSeq(stream, FirstLen(stream, 1) + 1, Len(stream))
  /\ pending' = Tail(pending)

\* What a reader obtains now is what was written first, whatever follows it.
ReadsBackFirst == pending # <<>> => Decode(pending[1].s, stream) = pending[1].v
\* Exact consumption: when everything was read, nothing remains.
NothingLeft == (pending = <<>>) <=> (stream = <<>>)
\* Length bound, minimality of the unsigned form.
Bounded == Len(stream) <= (N + 1) * Len(pending)
=============================================================================
