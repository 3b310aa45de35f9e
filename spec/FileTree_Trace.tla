--------------------------- MODULE FileTree_Trace ----------------------------
EXTENDS FileTree, TraceBase
VARIABLE l
Rec == Trace[l]
TInit == l = 1 /\ tree = [x \in {<<>>} |-> "dir"] /\ found = [x \in {} |-> 0] /\ filters = {}
Fresh == tree' = [x \in {<<>>} |-> "dir"] /\ found' = [x \in {} |-> 0] /\ filters' = {}
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Step == \/ Rec.op = "fresh" /\ Fresh
        \/ Rec.op = "put" /\ Put(Rec.p, Rec.k)
        \/ Rec.op = "scan" /\ Scan(Rec.p, Rec.start)
        \/ Rec.op = "filter" /\ AddFilter(Rec.f)
        \/ Rec.op = "nofilters" /\ ClearFilters
        \/ Rec.op = "clear" /\ Clear
        \/ Rec.op = "type" /\ UNCHANGED vars /\ Expect("type", Rec.r, TypeOf(Rec.p))
        \/ Rec.op = "mkdirs" /\ MakeFor(<<>>, <<Rec.p>>)
        \/ Rec.op = "mkdir" /\ Expect("made", Rec.r, IF MadeOne(Rec.p) THEN 1 ELSE 0) /\ MakeOne(Rec.p, Rec.k)
        \/ Rec.op = "mkdirsin" /\ MakeFor(Rec.p, Rec.ps)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ Step
         /\ Expect("found", Bag(Rec.files), found')
         /\ Expect("tree", {Rec.tree[i] : i \in 1..Len(Rec.tree)}, {<<p, tree'[p]>> : p \in DOMAIN tree' \ {<<>>}})
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
