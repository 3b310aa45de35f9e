---------------------------- MODULE ReflBin_Trace ----------------------------
EXTENDS ReflBin, TraceBase
H == INSTANCE JenHash
Names == UNION {{t.names[i] : i \in 1..Len(t.names)} : t \in {Trace[i] : i \in {j \in 1..Len(Trace) : Trace[j].op = "reset"}}}
Hashes == [s \in Names |-> H!Wide(s)]
Wide(s) == Hashes[s]
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ objs = <<>> /\ file = <<>> /\ pos = 0
\* a fresh stream and three objects
Reset == Rec.op = "reset" /\ objs' = Rec.objs /\ file' = <<>> /\ pos' = 0
\* one member of one object set behind the library's back
Raw == Rec.op = "raw" /\ UNCHANGED <<file, pos>>
       /\ objs' = [objs EXCEPT ![Rec.s + 1].v[Rec.f + 1] = Rec.to]
\* bytes put into the stream, as another program would write them
Bytes == Rec.op = "bytes" /\ file' = file \o Rec.b /\ UNCHANGED <<objs, pos>>
TSave == Rec.op = "save" /\ Save(Rec.s + 1) /\ Expect("result", Rec.rc, 0)
TLoad == /\ Rec.op = "load" /\ Load(Rec.s + 1)
         /\ Expect("result", IF Rec.rc = 0 THEN 0 ELSE 1, Decoded(objs[Rec.s + 1].c, objs[Rec.s + 1].v, file, pos).e)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("bytes outside the members", Rec.ok, 1)
         /\ (Reset \/ Raw \/ Bytes \/ TSave \/ TLoad)
         /\ (Rec.op = "save" => Expect("bytes written", Rec.out, SubSeq(file', Len(file) + 1, Len(file'))))
         /\ (Rec.op = "load" => Expect("reader position", Rec.pos, pos'))
         /\ \A s \in 1..Len(objs') : Expect("members", Rec.vals[s], objs'[s].v)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
