------------------------------- MODULE Utf_MC -------------------------------
\* Texts of a few units are put together unit by unit
EXTENDS Utf, TLC
CONSTANTS MaxLen
Bytes == {65, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 237, 239, 240, 244, 245, 255}
Halves == {0, 65, 55295, 55296, 56319, 56320, 57343, 57344, 65535}
Chars == {0, 65, 127, 128, 2047, 2048, 55295, 57344, 65279, 65533, 65535, 65536, 131071, 1048575, 1048576, 1114111}
VARIABLES kind, s
Init == kind \in {"8", "16", "c"} /\ s = <<>>
Next == /\ Len(s) < (IF kind = "c" THEN MaxLen - 1 ELSE MaxLen)
        /\ \E u \in (CASE kind = "8" -> Bytes [] kind = "16" -> Halves [] OTHER -> Chars) : s' = Append(s, u)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, s>>
\* characters come back as they were, from units of any size
RoundTrip == kind = "c" =>
  /\ Dec8(All(Enc8, s)) = [cs |-> s, how |-> "ok"] /\ Dec16(All(Enc16, s)) = [cs |-> s, how |-> "ok"] /\ Dec32(s) = [cs |-> s, how |-> "ok"]
\* there is but one text of the same characters
Canonical == /\ kind = "8" => LET d == Dec8(s) IN (\A i \in 1..Len(d.cs) : IsChar(d.cs[i])) /\ (IF d.how = "ok" THEN All(Enc8, d.cs) = s ELSE IsPrefix(All(Enc8, d.cs), s))
             /\ kind = "16" => LET d == Dec16(s) IN (\A i \in 1..Len(d.cs) : IsChar(d.cs[i])) /\ (IF d.how = "ok" THEN All(Enc16, d.cs) = s ELSE IsPrefix(All(Enc16, d.cs), s))
\* no text within another's character: what has been told bad stays bad
BadStays == [][(kind = "8" /\ Dec8(s).how = "bad" => Dec8(s').how = "bad") /\ (kind = "16" /\ Dec16(s).how = "bad" => Dec16(s').how = "bad")]_<<kind, s>>
=============================================================================
