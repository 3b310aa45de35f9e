--------------------------- MODULE XmlFile_Trace ----------------------------
EXTENDS XmlFile, TraceBase
VARIABLES l, files, doc
vars == <<l, files, doc>>
Rec == Trace[l]
Set(q) == {q[i] : i \in 1..Len(q)}
U8(t) == All(Enc8, t)
RECURSIVE Dump(_)
Dump(n) == <<n.k, U8(n.n), U8(n.v), [i \in 1..Len(n.a) |-> <<U8(n.a[i][1]), U8(n.a[i][2])>>], [i \in 1..Len(n.c) |-> Dump(n.c[i])]>>
RECURSIVE Down(_, _)
Down(n, p) == IF p = <<>> THEN n ELSE Down(n.c[Head(p)], Tail(p))
\* ----- errors
Status == <<"status_ok", "status_file_not_found", "status_io_error", "status_out_of_memory", "status_internal_error", "status_unrecognized_tag", "status_bad_pi", "status_bad_comment", "status_bad_cdata", "status_bad_doctype", "status_bad_pcdata", "status_bad_start_element", "status_bad_attribute", "status_bad_end_element", "status_end_element_mismatch", "status_append_invalid_root", "status_no_document_element">>
AlNum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
HexDigit(v) == SubSeq("0123456789ABCDEF", v + 1, v + 1)
RECURSIVE HexText(_)
HexText(cs) == IF cs = <<>> THEN "" ELSE "0x" \o (IF Head(cs) > 15 THEN HexDigit(Head(cs) \div 16) ELSE "") \o HexDigit(Head(cs) % 16) \o " " \o HexText(Tail(cs))
ErrText == CASE Rec.kind = "notfound" -> IF Rec.named = 1 THEN "Couldn't open file: " \o Rec.name ELSE "Couldn't open file."
             [] Rec.kind = "access" -> IF Rec.named = 1 THEN "Couldn't access file: " \o Rec.name ELSE "Couldn't access file."
             [] Rec.kind = "header" -> "Invalid format."
             [] Rec.kind = "headername" -> "Invalid format: " \o Rec.name
             [] Rec.kind = "magic" -> LET z == SelectInSeq(Rec.bytes, LAMBDA b : b = 0)  cs == IF z = 0 THEN Rec.bytes ELSE SubSeq(Rec.bytes, 1, z - 1)
                                      IN "Invalid format: " \o (IF \A i \in 1..Len(cs) : AlNum(cs[i]) THEN Rec.name ELSE HexText(cs))
             [] Rec.kind = "version" -> IF Rec.named = 1 THEN "Invalid version: " \o Rec.name ELSE "Invalid version."
             [] Rec.kind = "eos" -> "Unexpected end of stream."
ErrType == CASE Rec.kind \in {"header", "headername", "magic"} -> "header" [] OTHER -> Rec.kind
LoadDoc == IF Rec.name \in DOMAIN files /\ Accepted1(Read(Chars(files[Rec.name], Rec.enc), Set(Rec.flags)), Set(Rec.flags))
           THEN Read(Chars(files[Rec.name], Rec.enc), Set(Rec.flags)) ELSE doc
TInit == l = 1 /\ files = <<>> /\ doc = Empty
Step(f, d) == files' = f /\ doc' = d
F1(n, b) == [x \in DOMAIN files \union {n} |-> IF x = n THEN b ELSE files[x]]
Written == (IF Has(Set(Rec.flags), "WriteBOM") /\ Rec.enc # "Latin1" THEN Bytes(BOM, Rec.enc) ELSE <<>>)
           \o Bytes(Write(doc, Set(Rec.flags), Rec.ind, Rec.enc), Rec.enc)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Expect("ok", Rec.ok, 1)
         /\ CASE Rec.op = "fresh" -> Step(<<>>, Empty)
              [] Rec.op = "put" -> Step(F1(Rec.name, Rec.bytes), doc)
              [] Rec.op = "load" ->
                   /\ IF Rec.name \notin DOMAIN files
                      THEN Expect("error", Rec.err, "notfound") /\ Expect("text", Rec.what, "Couldn't open file: " \o Rec.name)
                      ELSE LET d == Read(Chars(files[Rec.name], Rec.enc), Set(Rec.flags)) IN
                        IF ~Accepted1(d, Set(Rec.flags))
                        THEN Expect("error", Rec.err, "header") /\ Expect("text", Rec.what, "Invalid format.")
                        ELSE Expect("error", Rec.err, "") /\ Expect(<<"document", Set(Rec.flags), Rec.enc>>, Rec.tree, Dump(d))
                   /\ Step(files, LoadDoc)
              [] Rec.op = "bad" ->  \* a damaged file
                   /\ Expect("error", Rec.err, CASE Rec.status = 0 -> "" [] Rec.status = 16 -> "header" [] OTHER -> "other")
                   /\ Rec.status \notin {0, 16} => Expect("text", Rec.what, "Couldn't load XML file <" \o Rec.name \o ">[" \o Status[Rec.status + 1] \o "] at offset " \o ToString(Rec.offset))
                   /\ Step(files, doc)
              [] Rec.op = "save" ->
                   IF Rec.name = "none/x" THEN Expect("error", Rec.err, "access") /\ Expect("text", Rec.what, "Couldn't access file: none/x") /\ Step(files, doc)
                   ELSE /\ Expect("error", Rec.err, "")
                        /\ Expect(<<"file", Set(Rec.flags), Rec.enc>>, Rec.bytes, Written)
                        /\ Step(F1(Rec.name, Written), doc)
              [] Rec.op = "collect" -> LET q == Collect(Down(doc, Rec.path), Rec.nm) IN
                   /\ Expect(<<"children", Rec.nm>>, Rec.out, [i \in 1..Len(q) |-> Dump(q[i])])
                   /\ Step(files, doc)
              [] Rec.op = "err" -> Expect("kind of error", Rec.type, ErrType) /\ Expect("text of error", Rec.what, ErrText) /\ Step(files, doc)
              [] Rec.op = "nodeerr" -> /\ Expect("beginning of text", Rec.begin, 1) /\ Expect("end of text", Rec.end, 1) /\ Step(files, doc)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
