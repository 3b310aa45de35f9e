------------------------------- MODULE Errors -------------------------------
(* What errors say.  Texts are sequences of characters' codes.                  *)
EXTENDS Integers, Sequences, SequencesExt
\* "Couldn't open file", "Couldn't access file", "Invalid format", "Invalid version", "Unexpected end of stream."
CannotOpen == <<67,111,117,108,100,110,39,116,32,111,112,101,110,32,102,105,108,101>>
CannotAccess == <<67,111,117,108,100,110,39,116,32,97,99,99,101,115,115,32,102,105,108,101>>
BadFormat == <<73,110,118,97,108,105,100,32,102,111,114,109,97,116>>
BadVersion == <<73,110,118,97,108,105,100,32,118,101,114,115,105,111,110>>
EndOfStream == <<85,110,101,120,112,101,99,116,101,100,32,101,110,100,32,111,102,32,115,116,114,101,97,109,46>>
Plain(t) == t \o <<46>>
Naming(t, what) == t \o <<58, 32>> \o what
\* the characters of a header, up to the first zero; others than letters and digits make all of them numbers
IsAlnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
UpToZero(b) == LET z == {k \in DOMAIN b : b[k] = 0} IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE k \in z : \A j \in z : k <= j) - 1)
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
HexNum(c) == <<48, 120>> \o (IF c > 15 THEN <<HexDigit(c \div 16)>> ELSE <<>>) \o <<HexDigit(c % 16), 32>>
Magic(b) == LET u == UpToZero(b) IN
  IF \A k \in DOMAIN u : IsAlnum(u[k]) THEN u ELSE FoldLeft(LAMBDA t, c : t \o HexNum(c), <<>>, u)
=============================================================================
