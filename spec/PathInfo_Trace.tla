--------------------------- MODULE PathInfo_Trace ----------------------------
EXTENDS PathInfo, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ Init
TLoad == Rec.op = "load" /\ Load(Rec.s)
\* the path put into a folder
TBranch == Rec.op = "branch" /\ UNCHANGED path /\ Expect("branch", Rec.b, Branch(path, Rec.f))
Fresh == Rec.op = "fresh" /\ path' = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ (TLoad \/ TBranch \/ Fresh)
         /\ Expect("path", Rec.path, path')
         /\ Expect("folder", Rec.folder, Folder(path'))
         /\ Expect("name", Rec.name, Name(path'))
         /\ Expect("extension", Rec.ext, Ext(path'))
         /\ Expect("name with extension", Rec.nameext, NameExt(path'))
         /\ Expect("path without extension", Rec.noext, NoExt(path'))
         /\ Expect("parts", Rec.parts, Parts(path'))
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
