-------------------------------- MODULE Utf --------------------------------
\* Text in units of one, two and four bytes (UTF-8, UTF-16, UTF-32)
EXTENDS Integers, Sequences, SequencesExt
IsChar(c) == c \in 0..1114111 /\ c \notin 55296..57343
\* ----- putting characters into units
Enc8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
Enc32(c) == <<c>>
All(Enc(_), cs) == FlattenSeq([i \in 1..Len(cs) |-> Enc(cs[i])])
\* ----- taking the character apart that begins at i: its value and length; length 0: there is none, -1: the text ends within it
None == [c |-> 0, n |-> 0]
Cut == [c |-> 0, n |-> -1]
Lead(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
At8(s, i) ==
  LET n == Lead(s[i])
      c == IF n = 1 THEN s[i]
           ELSE IF n = 2 THEN (s[i] % 32) * 64 + (s[i + 1] % 64)
           ELSE IF n = 3 THEN (s[i] % 16) * 4096 + (s[i + 1] % 64) * 64 + (s[i + 2] % 64)
           ELSE (s[i] % 8) * 262144 + (s[i + 1] % 64) * 4096 + (s[i + 2] % 64) * 64 + (s[i + 3] % 64)
  IN  IF n = 0 THEN None
      ELSE IF i + n - 1 > Len(s)
           THEN IF \A k \in (i + 1)..Len(s) : s[k] \in 128..191 THEN Cut ELSE None
      ELSE IF IsChar(c) /\ SubSeq(s, i, i + n - 1) = Enc8(c) THEN [c |-> c, n |-> n] ELSE None
At16(s, i) ==
  IF s[i] \in 55296..56319
  THEN IF i = Len(s) THEN Cut
       ELSE IF s[i + 1] \in 56320..57343 THEN [c |-> 65536 + (s[i] - 55296) * 1024 + (s[i + 1] - 56320), n |-> 2] ELSE None
  ELSE IF IsChar(s[i]) THEN [c |-> s[i], n |-> 1] ELSE None
At32(s, i) == IF IsChar(s[i]) THEN [c |-> s[i], n |-> 1] ELSE None
\* ----- whole texts: the characters, and whether they are all there is ("ok"), the text is cut short ("cut"), or ill-formed ("bad")
RECURSIVE From8(_, _, _), From16(_, _, _), From32(_, _, _)
From8(s, i, cs) == IF i > Len(s) THEN [cs |-> cs, how |-> "ok"] ELSE
                   LET a == At8(s, i) IN IF a.n > 0 THEN From8(s, i + a.n, Append(cs, a.c)) ELSE [cs |-> cs, how |-> IF a.n = 0 THEN "bad" ELSE "cut"]
From16(s, i, cs) == IF i > Len(s) THEN [cs |-> cs, how |-> "ok"] ELSE
                   LET a == At16(s, i) IN IF a.n > 0 THEN From16(s, i + a.n, Append(cs, a.c)) ELSE [cs |-> cs, how |-> IF a.n = 0 THEN "bad" ELSE "cut"]
From32(s, i, cs) == IF i > Len(s) THEN [cs |-> cs, how |-> "ok"] ELSE
                   LET a == At32(s, i) IN IF a.n > 0 THEN From32(s, i + a.n, Append(cs, a.c)) ELSE [cs |-> cs, how |-> "bad"]
Dec8(s) == From8(s, 1, <<>>)
Dec16(s) == From16(s, 1, <<>>)
Dec32(s) == From32(s, 1, <<>>)
\* what a pointer to the text leads to ends before the first zero
Ended(s) == LET z == SelectInSeq(s, LAMBDA u : u = 0) IN IF z = 0 THEN s ELSE SubSeq(s, 1, z - 1)
=============================================================================
