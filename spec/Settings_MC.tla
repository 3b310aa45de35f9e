---------------------------- MODULE Settings_MC -----------------------------
(* Settings with a nested class; values are set, logs begun and messages said *)
(* in any order; the history is kept to say what each log has to hold.        *)
EXTENDS Settings
CONSTANT Steps
VARIABLE hist
F(n, al, d, t) == [nm |-> n, al |-> al, d1 |-> d, d2 |-> <<>>, t |-> t]
TB == [k |-> "bool", n |-> 1]
TI == [k |-> "uint", n |-> 1]
Inner == [cls |-> <<73>>, named |-> 1, bf |-> 0, w |-> 0, fields |-> <<F(<<105>>, <<>>, <<>>, TI)>>]
TE == [k |-> "enum", n |-> 1, items |-> <<[nm |-> <<65>>, v |-> <<0, 0, 0, 0, 0, 0, 0, 0>>], [nm |-> <<66>>, v |-> <<1, 0, 0, 0, 0, 0, 0, 0>>]>>]
C == [cls |-> <<67>>, named |-> 1, bf |-> 0, w |-> 0,
      fields |-> <<F(<<98>>, <<97>>, <<100>>, TB), F(<<101>>, <<>>, <<>>, TE), F(<<111>>, <<>>, <<>>, [k |-> "class", n |-> 0, c |-> Inner])>>]
Vals == {<<<<b>>, <<e>>, <<<<7>>>>>> : b \in 0..1, e \in 0..1}
Names == {<<49>>, <<50>>}
Init == sch = C /\ val = <<<<0>>, <<0>>, <<<<7>>>>>> /\ logs = [n \in {} |-> <<>>] /\ cur = <<>> /\ hist = <<>>
H(x) == Len(hist) < Steps /\ hist' = Append(hist, x)
Next == \/ \E i \in 1..2 : \E b \in 0..1 : val[i] # <<b>> /\ Change(i, <<b>>) /\ H([op |-> "set"])
        \/ \E n \in Names : n \notin DOMAIN logs /\ Log(n, <<84>>, 2) /\ H([op |-> "log", n |-> n, v |-> val])
        \/ \E k \in {"line", "error"} : Say(k, <<120>>) /\ H([op |-> "say", k |-> k])
Spec == Init /\ [][Next]_<<svars, hist>>
Begun(n) == CHOOSE i \in 1..Len(hist) : hist[i].op = "log" /\ hist[i].n = n
\* messages from i on, up to the next log
RECURSIVE Since(_)
Since(i) == IF i > Len(hist) \/ hist[i].op = "log" THEN <<>>
            ELSE (IF hist[i].op = "say" THEN Prefix(hist[i].k) \o <<120>> \o NL ELSE <<>>) \o Since(i + 1)
\* every log holds the values there were when it was begun and the messages since
Whole == \A n \in DOMAIN logs : logs[n] = Header(C, hist[Begun(n)].v, <<84>>, 2) \o Since(Begun(n) + 1)
Here == cur # <<>> => cur \in DOMAIN logs
\* a log only grows
Grows == [][\A n \in DOMAIN logs : n \in DOMAIN logs' /\ Starts(logs'[n], logs[n])]_<<svars, hist>>
\* different values, different logs
Told == \A v, w \in Vals : v # w => Header(C, v, <<84>>, 2) # Header(C, w, <<84>>, 2)
ASSUME Told
\* each member of each class has its line, as deep as its class is
Lines(s) == LET q == SplitAt(s, 10) IN {q[i] : i \in 1..Len(q)}
ASSUME Lines(Help(C)) = {<<67>> \o TSettings, <<TAB, 98>>, <<TAB, TAB, 100>>, <<TAB, 101>>,
                         <<TAB, TAB>> \o TValues \o <<65, COMMA, SP, 66, COMMA, SP>>, <<TAB, 111>>, <<TAB, TAB, 105>>, <<>>}
=============================================================================
