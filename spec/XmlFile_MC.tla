---------------------------- MODULE XmlFile_MC ------------------------------
(* Documents are put together node by node; however they are written, reading   *)
(* gives them back, whole or without what is not asked for.                     *)
EXTENDS XmlFile, TLC
CONSTANTS MaxNodes
VARIABLES doc, n
vars == <<doc, n>>
A == <<97>>  B == <<98>>
Txt == <<120, 60, 10, 38, 62, 13, 233, 34, 8364, 66376>>
Leaves == { Node("element", A, <<>>, <<>>, <<>>),
            Node("element", B, <<>>, << <<A, <<60, 9, 34, 38, 62, 32, 10, 39>>>>, <<B, <<>>>> >>, <<>>),
            Node("text", <<>>, Txt, <<>>, <<>>), Node("text", <<>>, <<32, 120, 32>>, <<>>, <<>>),
            Node("comment", <<>>, <<38, 60, 32>>, <<>>, <<>>), Node("cdata", <<>>, <<60, 38, 93, 93, 32>>, <<>>, <<>>),
            Node("pi", A, <<62, 60>>, <<>>, <<>>), Node("pi", A, <<>>, <<>>, <<>>) }
Texts == {"text"}
Top == {x \in Leaves : x.k \in {"element", "comment", "pi"}}
Fits(c, x) == ~(x.k = "text" /\ c # <<>> /\ c[Len(c)].k = "text")
Init == n = 0 /\ doc \in {Empty, [Empty EXCEPT !.c = <<Node("doctype", <<>>, A, <<>>, <<>>)>>],
                          [Empty EXCEPT !.c = <<Node("decl", XML, <<>>, << <<A, B>> >>, <<>>)>>]}
AddTop == \E x \in Top : doc' = Push(doc, x)
AddIn == \E i \in 1..Len(doc.c), x \in Leaves : doc.c[i].k = "element" /\ Fits(doc.c[i].c, x) /\ doc' = [doc EXCEPT !.c[i].c = Append(@, x)]
AddDeep == \E i \in 1..Len(doc.c), x \in Leaves : \E j \in 1..Len(doc.c[i].c) :
   doc.c[i].c[j].k = "element" /\ Fits(doc.c[i].c[j].c, x) /\ doc' = [doc EXCEPT !.c[i].c[j].c = Append(@, x)]
Spec == Init /\ [][n < MaxNodes /\ n' = n + 1 /\ (AddTop \/ AddIn \/ AddDeep)]_vars
Ways == { {}, {"Indent"}, {"Raw"}, {"Raw", "NoDeclaration"}, {"Indent", "IndentAttributes"}, {"NoEmptyElementTaggs", "NoDeclaration"}, {"Indent", "NoEmptyElementTaggs"}, {"Raw", "IndentAttributes", "Indent"} }
Everything == {"PI", "Comments", "CDATA", "Escapes", "Declaration", "DocType", "Fragment"}
Declared(d) == \E i \in 1..Len(d.c) : d.c[i].k = "decl"
\* a declaration is written when there is none
WithDecl(d, f) == IF Declared(d) \/ "NoDeclaration" \in f THEN d
                  ELSE [d EXCEPT !.c = <<Node("decl", XML, <<>>, << <<<<118, 101, 114, 115, 105, 111, 110>>, <<49, 46, 48>>>> >>, <<>>)>> \o d.c]
RoundTrip == \A f \in Ways : Read(Write(doc, f, <<9>>, "UTF8"), Everything) = WithDecl(doc, f)
RECURSIVE Without(_, _)
Without(d, ks) == [d EXCEPT !.c = LET q == SelectSeq(d.c, LAMBDA x : x.k \notin ks) IN [i \in 1..Len(q) |-> Without(q[i], ks)]]
Kinds == << <<"PI", "pi">>, <<"Comments", "comment">>, <<"CDATA", "cdata">>, <<"DocType", "doctype">>, <<"Declaration", "decl">> >>
Chosen == \A i \in 1..5 : LET d == WithDecl(doc, {}) IN
   Read(Write(doc, {}, <<9>>, "UTF8"), Everything \ {Kinds[i][1]}) = Without(d, {Kinds[i][2]})
\* all encodings hold all characters (the one of a byte: the first 256), and show by their mark, or by the first character
Encoded == LET t == Write(doc, {"Indent"}, <<9>>, "UTF8") IN \A e \in Encodings \ {"Latin1"} :
   /\ Chars(Bytes(t, e), e) = t
   /\ Chars(Bytes(BOM \o t, e), "Auto") = t
   /\ t # <<>> => Chars(Bytes(t, e), "Auto") = t
Marked == LET t == Write(doc, {"Indent"}, <<9>>, "Latin1") IN ~Declared(doc) => Guess(Bytes(t, "Latin1")) = "Latin1"
=============================================================================
