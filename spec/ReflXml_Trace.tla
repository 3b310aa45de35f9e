---------------------------- MODULE ReflXml_Trace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TraceBase
H == INSTANCE JenHash
Names == UNION {{t.names[i] : i \in 1..Len(t.names)} : t \in {Trace[i] : i \in {j \in 1..Len(Trace) : Trace[j].op = "reset"}}}
Hashes == TLCEval([s \in Names |-> H!Wide(s)])
NameHash(s) == Hashes[s]
VARIABLES objs, doc, l
INSTANCE ReflXml
Rec == Trace[l]
TInit == l = 1 /\ objs = <<>> /\ doc = Node(<<>>)
\* a fresh tree and three objects
Reset == Rec.op = "reset" /\ objs' = Rec.objs /\ doc' = Node(<<114>>)
\* one member of one object set behind the library's back
Raw == Rec.op = "raw" /\ UNCHANGED doc
       /\ objs' = [objs EXCEPT ![Rec.s + 1].v[Rec.f + 1] = Rec.to]
\* a tree written by another program
Foreign == Rec.op = "doc" /\ doc' = Rec.tree /\ UNCHANGED objs
TSave == /\ Rec.op = "save" /\ Save(Rec.s + 1, Rec.path, Rec.lay, Rec.own = 1, Rec.sa = 1)
         /\ Expect("node returned", Rec.at, IF Rec.own = 1 THEN Append(Rec.path, Len(At(doc, Rec.path).c) + 1) ELSE Rec.path)
TLoad == /\ Rec.op = "load" /\ Load(Rec.s + 1, Rec.path, Rec.lay, Rec.own = 1)
         /\ LET k == Found(At(doc, Rec.path), objs[Rec.s + 1].c, Rec.own = 1)
            IN  Expect("node returned", Rec.at, IF k = 0 THEN <<0>> ELSE IF k = -1 THEN Rec.path ELSE Append(Rec.path, k))
TRewrite == Rec.op = "again" /\ Rewrite
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("bytes outside the members", Rec.ok, 1)
         /\ (Reset \/ Raw \/ Foreign \/ TSave \/ TLoad \/ TRewrite)
         /\ Expect("tree", Rec.doc, doc')
         /\ \A s \in 1..Len(objs') : Expect("members", Rec.vals[s], objs'[s].v)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
