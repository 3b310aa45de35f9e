------------------------------ MODULE Hashes_MC ------------------------------
(* lookup3 scaled down to words of one byte: a block is mixed and finished      *)
(* without loss (every state has one predecessor), so every word of the text    *)
(* has a say: two texts that differ in one word of the last block, or of the    *)
(* first, never meet in all three words.                                        *)
EXTENDS Hashes, FiniteSets
CONSTANTS Grid, MaxLen
VARIABLES r, m, f, txt, h
vars == <<r, m, f, txt, h>>
V == {<<(256 \div Grid) * i>> : i \in 0..(Grid-1)} \cup {<<255>>, <<1>>}
Init == /\ r \in [{"a", "b", "c"} -> V] /\ m = Mix(r) /\ f = Final(r) /\ txt = <<>> /\ h = [a |-> <<0>>, b |-> <<0>>, c |-> <<0>>]
\* texts grown byte by byte from one start, each of all values
Next == /\ r = [a |-> <<0>>, b |-> <<0>>, c |-> <<0>>] /\ Len(txt) < MaxLen
        /\ \E v \in {0, 1, 128} : txt' = Append(txt, v)
        /\ h' = Lookup3State(1, txt', <<0>>) /\ UNCHANGED <<r, m, f>>
Spec == Init /\ [][Next]_vars
MixBack == UnMix(m) = r
FinalBack == UnFinal(f) = r
\* a text differing in one byte of any block ends in another state
EveryByteCounts ==
  \A i \in 1..Len(txt) : \A v \in {1, 77} :
     Lookup3State(1, [txt EXCEPT ![i] = (@ + v) % 256], <<0>>) # h
PaddingSmallest == txt = <<>> => \A v \in 0..255, k \in 0..7 :
  LET p == Padding(<<v>>, k)[1] IN ((v + p) % 2^k) = 0 /\ \A q \in 0..(p-1) : ((v + q) % 2^k) # 0
\* no other float comes closer: times the number it is off by half a place at most
FractionNearest == txt = <<>> => \A n \in 1..7 :
  LET fr == Fraction(n)
      man == 2^23 + (fr[3] % 128) * 65536 + fr[2] * 256 + fr[1]
      exp == 2 * fr[4] + fr[3] \div 128
      off == man * (2^n - 1) - 2^(150 - exp)
  IN  2 * (IF off < 0 THEN -off ELSE off) <= 2^n - 1
Powers == txt = <<>> => {v \in 0..255 : Pow2(<<v>>)} = {2^k : k \in 0..7}
=============================================================================
