----------------------------- MODULE BlockModes -----------------------------
(* Chaining of blocks (datas/encrypt/blowfish.cpp).  A block cipher is given by *)
(* the function E of a block and its inverse D, X joins two blocks bit by bit.  *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Modes == {"ECB", "CBC", "PCBC", "CFB", "OFB"}
\* out: blocks so far, v: chaining vector
LOCAL Chain(Step(_, _), v, blocks) ==
  FoldLeft(LAMBDA a, b : LET r == Step(a.v, b) IN [out |-> Append(a.out, TLCEval(r[1])), v |-> TLCEval(r[2])],
           [out |-> <<>>, v |-> v], blocks).out
Encode(mode, E(_), X(_, _), v, blocks) ==
  LET ECB(c, b) == <<E(b), c>>
      CBC(c, b) == LET o == TLCEval(E(X(b, c))) IN <<o, o>>
      PCBC(c, b) == LET o == TLCEval(E(X(b, c))) IN <<o, X(o, b)>>
      CFB(c, b) == LET o == TLCEval(X(b, E(c))) IN <<o, o>>
      OFB(c, b) == LET k == TLCEval(E(c)) IN <<X(b, k), k>>
  IN  CASE mode = "ECB" -> Chain(ECB, v, blocks)
        [] mode = "CBC" -> Chain(CBC, v, blocks)
        [] mode = "PCBC" -> Chain(PCBC, v, blocks)
        [] mode = "CFB" -> Chain(CFB, v, blocks)
        [] mode = "OFB" -> Chain(OFB, v, blocks)
Decode(mode, E(_), D(_), X(_, _), v, blocks) ==
  LET ECB(c, b) == <<D(b), c>>
      CBC(c, b) == <<X(D(b), c), b>>
      PCBC(c, b) == LET p == TLCEval(X(D(b), c)) IN <<p, X(p, b)>>
      CFB(c, b) == <<X(b, E(c)), b>>
      OFB(c, b) == LET k == TLCEval(E(c)) IN <<X(b, k), k>>
  IN  CASE mode = "ECB" -> Chain(ECB, v, blocks)
        [] mode = "CBC" -> Chain(CBC, v, blocks)
        [] mode = "PCBC" -> Chain(PCBC, v, blocks)
        [] mode = "CFB" -> Chain(CFB, v, blocks)
        [] mode = "OFB" -> Chain(OFB, v, blocks)
=============================================================================
