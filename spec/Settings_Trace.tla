--------------------------- MODULE Settings_Trace ---------------------------
EXTENDS Settings, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ sch = <<>> /\ val = <<>> /\ logs = [n \in {} |-> <<>>] /\ cur = <<>>
\* the log is in a file named after the time, which is one of those between call and return
LogR == LET fits == {i \in 1..Len(Rec.times) : Rec.file = Rec.name \o Rec.times[i].stamp \o TTxt}
        IN  /\ Expect("files", Rec.files, 1)
            /\ Expect("name of the log", <<Rec.file, fits # {}>>, <<Rec.file, TRUE>>)
            /\ Log(Rec.name, Rec.times[CHOOSE i \in fits : TRUE].text, Rec.threads)
Keep == UNCHANGED svars
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "reset" -> Blank0(Rec.sch, Rec.val)
              [] Rec.op = "raw" -> Change(Rec.f + 1, Rec.to)
              [] Rec.op = "log" -> LogR
              [] Rec.op = "say" -> Say(Rec.kind, Rec.text)
              [] Rec.op = "read" -> Keep /\ Expect("log", Rec.out, logs[Rec.name])
              [] Rec.op = "help" -> Keep /\ Expect("help", Rec.out, Help(sch))
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
