---------------------------- MODULE BlockModes_MC ----------------------------
(* Every permutation of blocks of two bits as the cipher, every mode and        *)
(* vector, texts grown block by block; two vectors alongside.                   *)
EXTENDS BlockModes, Bitwise
CONSTANT MaxBlocks
VARIABLES perm, mode, vec, text, code
vars == <<perm, mode, vec, text, code>>
Blk == 0..3
Perms == {f \in [Blk -> Blk] : \A x, y \in Blk : x # y => f[x] # f[y]}
Inv(f) == [y \in Blk |-> CHOOSE x \in Blk : f[x] = y]
Enc(f, m, v, t) == LET E(b) == f[b] X(a, b) == a ^^ b IN Encode(m, E, X, v, t)
Dec(f, m, v, t) == LET g == Inv(f) E(b) == f[b] D(b) == g[b] X(a, b) == a ^^ b IN Decode(m, E, D, X, v, t)
Init == perm \in Perms /\ mode \in Modes /\ vec \in Blk /\ text = <<>> /\ code = <<>>
Next == /\ Len(text) < MaxBlocks /\ \E b \in Blk : text' = Append(text, b)
        /\ code' = Enc(perm, mode, vec, text') /\ UNCHANGED <<perm, mode, vec>>
Spec == Init /\ [][Next]_vars
Back == Dec(perm, mode, vec, code) = text
SameLength == Len(code) = Len(text)
\* what follows never changes the code of what comes before
Prefix == [][SubSeq(code', 1, Len(code)) = code]_vars
\* different texts have different codes
Injective == Len(text) > 0 => \A b \in Blk \ {text[Len(text)]} :
   Enc(perm, mode, vec, [text EXCEPT ![Len(text)] = b]) # code
\* with the wrong vector, all but the first block come back where they chain by code
SelfHealing == mode \in {"CBC", "CFB"} =>
   \A v \in Blk : LET t == Dec(perm, mode, v, code) IN \A i \in 2..Len(text) : t[i] = text[i]
=============================================================================
