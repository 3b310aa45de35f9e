------------------------------- MODULE JenHash -------------------------------
(* The name hash (datas/jenkinshash.hpp): one-at-a-time over the bytes of the  *)
(* name, kept in 32 bits between bytes but computed in a wider word (wide) -    *)
(* the library's usual hash - or in 32 bits throughout (canon).                 *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL B == INSTANCE Bytes
LOCAL Step(w, n, c) ==
  LET a == B!Add(w, B!Small(n, c))
      b == B!Add(a, B!MulSmall(a, 1024))
      d == B!XorB(b, B!DivSmall(b, 64).q)
  IN  B!ZExt(B!Trunc(d, 4), n)
LOCAL Hash(n, s) ==
  LET w == FoldLeft(LAMBDA x, c : TLCEval(Step(x, n, c)), B!Zero(n), s)
      a == B!Add(w, B!MulSmall(w, 8))
      b == B!XorB(a, B!DivSmall(a, 2048).q)
  IN  B!Trunc(B!Add(b, B!MulSmall(b, 32768)), 4)
Wide(s) == Hash(8, s)
Canon(s) == Hash(4, s)
=============================================================================
