----------------------------- MODULE ReflDB_Trace ----------------------------
EXTENDS ReflDB, TraceBase
H == INSTANCE JenHash
Names == UNION {{t.names[i] : i \in 1..Len(t.names)} : t \in {Trace[i] : i \in {j \in 1..Len(Trace) : Trace[j].op = "reset"}}}
Hashes == [s \in Names |-> H!Wide(s)]
Hashed(s) == Hashes[s]
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ dbs = <<>> /\ file = <<>> /\ pos = 0
Reset == Rec.op = "reset" /\ dbs' = <<Empty, Empty>> /\ file' = Rec.data /\ pos' = 0
TAddClass == Rec.op = "class" /\ Holds("description of the class", Described(Rec.d, Rec.c)) /\ AddClass(Rec.s + 1, Rec.c)
TAddEnum == Rec.op = "enum" /\ Holds("description of the enumeration", EnumDescribed(Rec.d, Rec.e)) /\ AddEnum(Rec.s + 1, Rec.e)
TSave == /\ Rec.op = "save" /\ Expect("result", Rec.rc, 0)
         /\ Expect("stream before", Rec.old, file)
         /\ Holds("saved form", Means(Rec.out, dbs[Rec.s + 1])) /\ SaveAs(Rec.s + 1, Rec.out)
         /\ Expect("writer position", Rec.at, Len(file'))
TForeign == Rec.op = "bytes" /\ Foreign(Rec.b)
TSeek == Rec.op = "seek" /\ Seek(Rec.p)
TLoad == /\ Rec.op = "load" /\ Expect("result", Rec.rc, LoadResult)
         /\ Load(Rec.s + 1)
         /\ Expect("reader position", Rec.pos, pos')
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("stream", Rec.ok, 1)
         /\ (Reset \/ TAddClass \/ TAddEnum \/ TSave \/ TForeign \/ TSeek \/ TLoad)
         /\ (Rec.op \in {"load", "class", "enum", "save"} =>
              \A s \in 1..2 : Expect("classes", Rec.dbs[s].c, dbs'[s].c) /\ Expect("enumerations", Rec.dbs[s].e, dbs'[s].e))
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
