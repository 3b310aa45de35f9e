------------------------------ MODULE Settings ------------------------------
(* Settings of a tool: an object of a reflected class whose help can be told  *)
(* and whose values, together with all messages that follow, go to a log.     *)
(* State: sch, val (of Reflect), logs: name -> text, cur: name of the log     *)
(* that is written now (<<>>: none).                                          *)
EXTENDS Reflect
VARIABLES logs, cur
svars == <<vars, logs, cur>>
NL == <<10>>
Tabs(n) == [i \in 1..n |-> TAB]
Ln(n, s) == Tabs(n) \o s \o NL
TValues == <<86, 97, 108, 117, 101, 115, 58, 32>>
TSettings == <<32, 115, 101, 116, 116, 105, 110, 103, 115, 46>>
TTime == <<67, 117, 114, 114, 101, 110, 116, 32, 116, 105, 109, 101, 58, 32>>
TThreads == <<78, 117, 109, 98, 101, 114, 32, 111, 102, 32, 99, 111, 110, 99, 117, 114, 114, 101, 110, 116, 32, 116, 104, 114, 101, 97, 100, 115, 58, 32>>
TConf == <<67, 111, 110, 102, 105, 103, 117, 114, 97, 116, 105, 111, 110, 58>>
TTxt == <<46, 116, 120, 116>>
TWarn == <<87, 65, 82, 78, 73, 78, 71, 58, 32>>
TErr == <<69, 82, 82, 79, 82, 58, 32>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
(* ---------------------------------------------------------------- the help *)
RECURSIVE HelpOf(_, _)
Member(f, n) ==
  Ln(n, f.nm)
  \o (IF f.d1 = <<>> THEN <<>> ELSE Ln(n + 1, f.d1))
  \o (CASE f.t.k = "class" -> HelpOf(f.t.c, n + 1)
        [] f.t.k = "arr" -> (IF f.t.el.k = "class" THEN HelpOf(f.t.el.c, n + 1) ELSE <<>>)
        [] f.t.k = "enum" -> Ln(n + 1, TValues \o Cat([i \in 1..Len(f.t.items) |-> f.t.items[i].nm \o <<COMMA, SP>>]))
        [] OTHER -> <<>>)
HelpOf(c, n) == Cat([i \in 1..Len(c.fields) |-> Member(c.fields[i], n)])
Help(c) == c.cls \o TSettings \o NL \o HelpOf(c, 1)
(* ----------------------------------------------------------------- the log *)
ById(i) == [id |-> i - 1, nm |-> <<>>]
Setting(c, v, i) == LET p == Pair(c, v, ById(i), TRUE, FALSE) IN <<TAB>> \o p.nm \o <<58, SP>> \o p.txt \o NL
Header(c, v, time, threads) ==
  TTime \o time \o NL \o TThreads \o DecN(threads) \o NL \o TConf \o NL
  \o Cat([i \in 1..Len(c.fields) |-> Setting(c, v, i)]) \o NL
Prefix(kind) == CASE kind = "line" -> <<>> [] kind = "warning" -> TWarn [] kind = "error" -> TErr
Add(f, k, x) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN x ELSE f[n]]
(* ------------------------------------------------------------------- steps *)
Blank0(c, v) == sch' = c /\ val' = v /\ logs' = [n \in {} |-> <<>>] /\ cur' = <<>>
Change(i, x) == val' = [val EXCEPT ![i] = x] /\ UNCHANGED <<sch, logs, cur>>
Log(name, time, threads) == /\ logs' = Add(logs, name, Header(sch, val, time, threads)) /\ cur' = name
                            /\ UNCHANGED vars
Say(kind, s) == /\ logs' = IF cur = <<>> THEN logs ELSE Add(logs, cur, logs[cur] \o Prefix(kind) \o s \o NL)
                /\ UNCHANGED <<vars, cur>>
=============================================================================
