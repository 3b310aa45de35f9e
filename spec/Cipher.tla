------------------------------- MODULE Cipher -------------------------------
(* Encoders of byte texts (datas/encrypt): xor with a repeated key, and         *)
(* Blowfish, whose tables start from the fraction of pi.  A word of 32 bits is   *)
(* a pair of its halves, a block a pair of words, which lie in little endian     *)
(* order in a text.  The second kind of Blowfish takes bytes of words the other  *)
(* way around, in the round function and from the key.                           *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
P == INSTANCE PiTable
M == INSTANCE BlockModes
VARIABLES alg, key, tab, mode, vec      \* key = <<>>: none yet
vars == <<alg, key, tab, mode, vec>>

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAdd(a, b) == LET lo == a[2] + b[2]
              IN  <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
BXor(a, b) == <<WXor(a[1], b[1]), WXor(a[2], b[2])>>
\* the word that four bytes make, most significant first
W4(a, b, c, d) == <<256 * a + b, 256 * c + d>>

F(k, t, w) ==
  LET b1 == w[1] \div 256  b2 == w[1] % 256  b3 == w[2] \div 256  b4 == w[2] % 256
      s(n, b) == t.s[256 * n + b + 1]
  IN  IF k = "bf" THEN WAdd(WXor(WAdd(s(0, b1), s(1, b2)), s(2, b3)), s(3, b4))
                  ELSE WAdd(WXor(WAdd(s(0, b4), s(1, b3)), s(2, b2)), s(3, b1))
R16 == [i \in 1..16 |-> i]
\* sixteen rounds; in decoding the P words are taken from the end
Rounds(k, t, blk, p(_)) ==
  LET r == FoldLeft(LAMBDA lr, i : LET l == TLCEval(WXor(lr[1], p(i)))
                                   IN  <<TLCEval(WXor(lr[2], F(k, t, l))), l>>, blk, R16)
  IN  TLCEval(<<WXor(r[2], p(18)), WXor(r[1], p(17))>>)
EncBlock(k, t, blk) == LET p(i) == t.p[i] IN Rounds(k, t, blk, p)
DecBlock(k, t, blk) == LET p(i) == t.p[19 - i] IN Rounds(k, t, blk, p)

Schedule(k, ky) ==
  LET n == Len(ky)
      kb(i) == ky[(i % n) + 1]
      kw(i) == IF k = "bf" THEN W4(kb(4*i), kb(4*i + 1), kb(4*i + 2), kb(4*i + 3))
                           ELSE W4(kb(4*i + 3), kb(4*i + 2), kb(4*i + 1), kb(4*i))
      t0 == TLCEval([p |-> [i \in 1..18 |-> WXor(P!PiP[i], kw(i - 1))], s |-> P!PiS])
      z == <<<<0, 0>>, <<0, 0>>>>
      afterP == FoldLeft(LAMBDA a, i :
                  LET b == EncBlock(k, a.t, a.b)
                  IN  [b |-> b, t |-> [a.t EXCEPT !.p[2*i - 1] = b[1], !.p[2*i] = b[2]]],
                  [b |-> z, t |-> t0], [i \in 1..9 |-> i])
  IN  FoldLeft(LAMBDA a, i :
        LET b == EncBlock(k, a.t, a.b)
        IN  [b |-> b, t |-> [a.t EXCEPT !.s[2*i - 1] = b[1], !.s[2*i] = b[2]]],
        afterP, [i \in 1..512 |-> i]).t

\* blocks of a text, and back
LW(t, at) == W4(t[at + 3], t[at + 2], t[at + 1], t[at])
Blk(t, at) == <<LW(t, at), LW(t, at + 4)>>
Blocks(t) == [i \in 1..(Len(t) \div 8) |-> Blk(t, 8 * i - 7)]
WBytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
Text(bs) == FlattenSeq([i \in 1..Len(bs) |-> WBytes(bs[i][1]) \o WBytes(bs[i][2])])
Rest(t) == SubSeq(t, 8 * (Len(t) \div 8) + 1, Len(t))

Xored(t) == [i \in 1..Len(t) |-> t[i] ^^ key[((i - 1) % Len(key)) + 1]]
\* whole blocks are coded, what remains stays
EncodedAs(m, t) ==
  LET E(b) == EncBlock(alg, tab, b)
  IN  Text(M!Encode(m, E, BXor, IF m = "ECB" THEN <<>> ELSE Blk(vec, 1), Blocks(t))) \o Rest(t)
DecodedAs(m, t) ==
  LET E(b) == EncBlock(alg, tab, b)
      D(b) == DecBlock(alg, tab, b)
  IN  Text(M!Decode(m, E, D, BXor, IF m = "ECB" THEN <<>> ELSE Blk(vec, 1), Blocks(t))) \o Rest(t)
Encoded(t) == IF alg = "xor" THEN Xored(t) ELSE EncodedAs(mode, t)
Decoded(t) == IF alg = "xor" THEN Xored(t) ELSE DecodedAs(mode, t)

New(a) == alg' = a /\ key' = <<>> /\ tab' = [p |-> <<>>, s |-> <<>>] /\ mode' = "ECB" /\ vec' = <<>>
\* a key set in a chaining mode comes with a vector of the library's choice
SetKey(k, v) ==
  /\ key' = k /\ tab' = (IF alg = "xor" THEN tab ELSE Schedule(alg, k))
  /\ vec' = (IF mode = "ECB" THEN vec ELSE v)
  /\ UNCHANGED <<alg, mode>>
SetMode(m) == mode' = m /\ UNCHANGED <<alg, key, tab, vec>>
SetVector(v) == vec' = v /\ UNCHANGED <<alg, key, tab, mode>>
=============================================================================
