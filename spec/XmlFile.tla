------------------------------ MODULE XmlFile -------------------------------
(* XML files (datas/pugiex.hpp): what is read out of a file under a set of      *)
(* reading choices, and what is written into it under a set of writing choices. *)
(* Texts are sequences of characters; a node is                                 *)
(* [k: kind, n: name, v: text, a: attributes <<name, value>>, c: children].      *)
EXTENDS Utf
Blank(c) == c \in {32, 9, 10, 13}
AllBlank(t) == \A i \in 1..Len(t) : Blank(t[i])
LT == 60  GT == 62  SL == 47  QM == 63  EX == 33  AMP == 38  EQ == 61
\* ----- finding
Find(s, i, p) == LET n == Len(p)  K == {k \in i..(Len(s) - n + 1) : s[k] = p[1] /\ SubSeq(s, k, k + n - 1) = p}
                 IN IF K = {} THEN Len(s) + 1 ELSE CHOOSE k \in K : \A m \in K : k <= m
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ Blank(s[i]) THEN SkipWs(s, i + 1) ELSE i
NameChar(c) == ~Blank(c) /\ c \notin {LT, GT, SL, EQ, QM, EX, 34, 39}
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ NameChar(s[i]) THEN NameEnd(s, i + 1) ELSE i
At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
\* ----- characters told by name or number
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Num(_, _, _)
Num(t, base, v) == IF t = <<>> THEN v ELSE Num(Tail(t), base, v * base + Hex(Head(t)))
Named == << <<<<97, 109, 112>>, 38>>, <<<<108, 116>>, 60>>, <<<<103, 116>>, 62>>, <<<<113, 117, 111, 116>>, 34>>, <<<<97, 112, 111, 115>>, 39>> >>
Meaning(t) == IF t[1] = 35 THEN (IF t[2] = 120 THEN Num(SubSeq(t, 3, Len(t)), 16, 0) ELSE Num(SubSeq(t, 2, Len(t)), 10, 0))
              ELSE LET K == {k \in 1..5 : Named[k][1] = t} IN Named[CHOOSE k \in K : TRUE][2]
\* texts converted: e: characters told are put in, l: ends of lines, w: blanks of attributes are spaces
RECURSIVE Conv(_, _, _, _, _)
Conv(t, i, e, l, w) ==
  IF i > Len(t) THEN <<>>
  ELSE IF e /\ t[i] = AMP THEN LET j == Find(t, i, <<59>>) IN <<Meaning(SubSeq(t, i + 1, j - 1))>> \o Conv(t, j + 1, e, l, w)
  ELSE IF w /\ Blank(t[i]) THEN <<32>> \o Conv(t, IF At(t, i, <<13, 10>>) THEN i + 2 ELSE i + 1, e, l, w)
  ELSE IF l /\ t[i] = 13 THEN <<10>> \o Conv(t, IF At(t, i, <<13, 10>>) THEN i + 2 ELSE i + 1, e, l, w)
  ELSE <<t[i]>> \o Conv(t, i + 1, e, l, w)
RECURSIVE DropFront(_), DropBack(_), Squeeze(_)
DropFront(t) == IF t # <<>> /\ Blank(Head(t)) THEN DropFront(Tail(t)) ELSE t
DropBack(t) == IF t # <<>> /\ Blank(t[Len(t)]) THEN DropBack(SubSeq(t, 1, Len(t) - 1)) ELSE t
Squeeze(t) == IF Len(t) < 2 THEN t ELSE IF t[1] = 32 /\ t[2] = 32 THEN Squeeze(Tail(t)) ELSE <<t[1]>> \o Squeeze(Tail(t))
Has(o, f) == f \in o
PText(t, o) == LET x == Conv(t, 1, Has(o, "Escapes"), Has(o, "EOL"), FALSE)
               IN IF Has(o, "TrimPCDATA") THEN DropBack(DropFront(x)) ELSE x
AText(t, o) == IF Has(o, "WNormAttribute") THEN DropBack(Conv(Squeeze(DropFront(Conv(t, 1, FALSE, FALSE, TRUE))), 1, Has(o, "Escapes"), FALSE, FALSE))
               ELSE Conv(t, 1, Has(o, "Escapes"), Has(o, "EOL"), Has(o, "WConvAttribute"))
LText(t, o) == Conv(t, 1, FALSE, Has(o, "EOL"), FALSE)
\* ----- reading
Node(k, n, v, a, c) == [k |-> k, n |-> n, v |-> v, a |-> a, c |-> c]
\* attributes from i on: <<attributes, where they end>>
RECURSIVE Attrs(_, _, _, _)
Attrs(s, i0, o, acc) ==
  LET i == SkipWs(s, i0) IN
  IF i > Len(s) \/ ~NameChar(s[i]) THEN <<acc, i>>
  ELSE LET e == NameEnd(s, i)
           q == SkipWs(s, SkipWs(s, e) + 1)
           z == Find(s, q + 1, <<s[q]>>)
       IN Attrs(s, z + 1, o, Append(acc, <<SubSeq(s, i, e - 1), AText(SubSeq(s, q + 1, z - 1), o)>>))
Push(n, x) == [n EXCEPT !.c = Append(n.c, x)]
XML == <<120, 109, 108>>
DOCTYPE == <<68, 79, 67, 84, 89, 80, 69>>
CDATA == <<91, 67, 68, 65, 84, 65, 91>>
\* what is in node n from i on: <<n, where its end tag is over>>; emb: texts may become the text of the node
RECURSIVE In(_, _, _, _, _)
In(s, i, o, n, top) ==
  IF i > Len(s) THEN <<n, i>>
  ELSE IF s[i] # LT THEN
    LET e == Find(s, i, <<LT>>)  raw == SubSeq(s, i, e - 1)
        closing == At(s, e, <<LT, SL>>)
        \* blanks only are left out, but when they are wanted, or all there is between tags and wanted then
        drop == AllBlank(raw) /\ (IF Has(o, "WhiteSpavePCDATASingle") THEN ~(closing /\ n.c = <<>>) ELSE ~Has(o, "WhiteSpacePCDATA"))
        out == top /\ ~Has(o, "Fragment")
        x == PText(raw, o)
    IN In(s, e, o, IF drop \/ out THEN n
                   ELSE IF Has(o, "EmbedPCDATA") /\ ~top /\ n.c = <<>> /\ n.v = <<>> THEN [n EXCEPT !.v = x]
                   ELSE Push(n, Node("text", <<>>, x, <<>>, <<>>)), top)
  ELSE IF s[i + 1] = SL THEN <<n, Find(s, i, <<GT>>) + 1>>
  ELSE IF s[i + 1] = QM THEN
    LET e == NameEnd(s, i + 2)  nm == SubSeq(s, i + 2, e - 1)  z == Find(s, e, <<QM, GT>>)
    IN IF nm = XML THEN In(s, z + 2, o, IF Has(o, "Declaration") THEN Push(n, Node("decl", nm, <<>>, Attrs(s, e, o, <<>>)[1], <<>>)) ELSE n, top)
       ELSE In(s, z + 2, o, IF Has(o, "PI") THEN Push(n, Node("pi", nm, SubSeq(s, SkipWs(s, e), z - 1), <<>>, <<>>)) ELSE n, top)
  ELSE IF s[i + 1] = EX THEN
    IF s[i + 2] = 45 THEN
      LET z == Find(s, i + 4, <<45, 45, GT>>)
      IN In(s, z + 3, o, IF Has(o, "Comments") THEN Push(n, Node("comment", <<>>, LText(SubSeq(s, i + 4, z - 1), o), <<>>, <<>>)) ELSE n, top)
    ELSE IF s[i + 2] = 91 THEN
      LET z == Find(s, i + 9, <<93, 93, GT>>)
      IN In(s, z + 3, o, IF Has(o, "CDATA") THEN Push(n, Node("cdata", <<>>, LText(SubSeq(s, i + 9, z - 1), o), <<>>, <<>>)) ELSE n, top)
    ELSE LET z == Find(s, i, <<GT>>)
         IN In(s, z + 1, o, IF Has(o, "DocType") THEN Push(n, Node("doctype", <<>>, SubSeq(s, SkipWs(s, i + 9), z - 1), <<>>, <<>>)) ELSE n, top)
  ELSE LET e == NameEnd(s, i + 1)  nm == SubSeq(s, i + 1, e - 1)
           at == Attrs(s, e, o, <<>>)  el == Node("element", nm, <<>>, at[1], <<>>)
       IN IF s[at[2]] = SL THEN In(s, at[2] + 2, o, Push(n, el), top)
          ELSE LET r == In(s, at[2] + 1, o, el, FALSE) IN In(s, r[2], o, Push(n, r[1]), top)
Empty == Node("document", <<>>, <<>>, <<>>, <<>>)
Read(s, o) == In(s, 1, o, Empty, TRUE)[1]
\* a document has an element, unless pieces are to be read
Accepted1(d, o) == Has(o, "Fragment") \/ \E i \in 1..Len(d.c) : d.c[i].k = "element"
\* ----- writing
Entity(c) == CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>> [] c = 34 -> <<38, 113, 117, 111, 116, 59>>
               [] OTHER -> <<38, 35, 48 + (c \div 10), 48 + (c % 10), 59>>
Esc(t, special, f) == IF Has(f, "NoEscapes") THEN t ELSE
  FlattenSeq([i \in 1..Len(t) |->
    IF t[i] < 32 /\ t[i] \in special THEN (IF Has(f, "SkipControlChars") THEN <<>> ELSE Entity(t[i]))
    ELSE IF t[i] \in special THEN Entity(t[i]) ELSE <<t[i]>>])
InText == ((0..31) \ {9, 10, 13}) \union {38, 60, 62}
InAttr == (0..31) \union {38, 60, 34}
Raw(f) == Has(f, "Raw")
Tabs(d, f, ind) == IF Raw(f) \/ ~(Has(f, "Indent") \/ Has(f, "IndentAttributes")) THEN <<>> ELSE FlattenSeq([i \in 1..d |-> ind])
AttrsOut(as, f, d, ind) ==
  FlattenSeq([i \in 1..Len(as) |->
    (IF Has(f, "IndentAttributes") /\ ~Raw(f) THEN <<10>> \o Tabs(d + 1, f, ind) ELSE <<32>>)
    \o as[i][1] \o <<EQ, 34>> \o Esc(as[i][2], InAttr, f) \o <<34>>])
\* st: what is written, whether a new line and indentation are due
RECURSIVE Out(_, _, _, _, _), Outs(_, _, _, _, _)
Outs(ns, d, f, ind, st) == IF ns = <<>> THEN st ELSE Outs(Tail(ns), d, f, ind, Out(Head(ns), d, f, ind, st))
Pre(st, d, f, ind) == st.t \o (IF st.nl /\ ~Raw(f) THEN <<10>> ELSE <<>>) \o (IF st.ind THEN Tabs(d, f, ind) ELSE <<>>)
Done(t) == [t |-> t, nl |-> TRUE, ind |-> TRUE]
RECURSIVE Cdata(_)
Cdata(t) == LET e == Find(t, 1, <<93, 93, GT>>) IN
  IF e > Len(t) THEN <<LT, EX>> \o CDATA \o t \o <<93, 93, GT>>
  ELSE <<LT, EX>> \o CDATA \o SubSeq(t, 1, e + 1) \o <<93, 93, GT>> \o Cdata(SubSeq(t, e + 2, Len(t)))
Out(n, d, f, ind, st) ==
  IF n.k = "text" THEN [t |-> st.t \o Esc(n.v, InText, f), nl |-> FALSE, ind |-> FALSE]
  ELSE IF n.k = "cdata" THEN [t |-> st.t \o Cdata(n.v), nl |-> FALSE, ind |-> FALSE]
  ELSE IF n.k = "element" THEN
    LET begin == Pre(st, d, f, ind) \o <<LT>> \o n.n \o AttrsOut(n.a, f, d, ind)
        close == <<LT, SL>> \o n.n \o <<GT>>
    IN IF n.c = <<>> THEN
         Done(begin \o (IF n.v # <<>> THEN <<GT>> \o Esc(n.v, InText, f) \o close
                        ELSE IF Has(f, "NoEmptyElementTaggs") THEN <<GT>> \o close ELSE (IF Raw(f) THEN <<>> ELSE <<32>>) \o <<SL, GT>>))
       ELSE LET r == Outs(n.c, d + 1, f, ind, [t |-> begin \o <<GT>> \o Esc(n.v, InText, f), nl |-> n.v = <<>>, ind |-> n.v = <<>>])
            IN Done(Pre(r, d, f, ind) \o close)
  ELSE LET p == Pre(st, d, f, ind) IN
    Done(p \o CASE n.k = "comment" -> <<LT, EX, 45, 45>> \o n.v \o <<45, 45, GT>>
                [] n.k = "pi" -> <<LT, QM>> \o n.n \o (IF n.v = <<>> THEN <<>> ELSE <<32>> \o n.v) \o <<QM, GT>>
                [] n.k = "decl" -> <<LT, QM>> \o n.n \o AttrsOut(n.a, f \union {"Raw"}, 0, ind) \o <<QM, GT>>
                [] n.k = "doctype" -> <<LT, EX>> \o DOCTYPE \o (IF n.v = <<>> THEN <<>> ELSE <<32>> \o n.v) \o <<GT>>)
Version == <<32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34>>
Latin == <<32, 101, 110, 99, 111, 100, 105, 110, 103, 61, 34, 73, 83, 79, 45, 56, 56, 53, 57, 45, 49, 34>>
Write(doc, f, ind, enc) ==
  LET decl == IF Has(f, "NoDeclaration") \/ (\E i \in 1..Len(doc.c) : doc.c[i].k = "decl") THEN <<>>
              ELSE <<LT, QM>> \o XML \o Version \o (IF enc = "Latin1" THEN Latin ELSE <<>>) \o <<QM, GT>> \o (IF Raw(f) THEN <<>> ELSE <<10>>)
      r == Outs(doc.c, 0, f, ind, [t |-> decl, nl |-> FALSE, ind |-> TRUE])
  IN r.t \o (IF r.nl /\ ~Raw(f) THEN <<10>> ELSE <<>>)
\* ----- bytes of files
Le2(u) == <<u % 256, u \div 256>>
Be2(u) == <<u \div 256, u % 256>>
Le4(u) == <<u % 256, (u \div 256) % 256, u \div 65536, 0>>
Be4(u) == <<0, u \div 65536, (u \div 256) % 256, u % 256>>
Each(f(_), us) == FlattenSeq([i \in 1..Len(us) |-> f(us[i])])
Bytes(cs, enc) == CASE enc \in {"Auto", "UTF8"} -> All(Enc8, cs)
                    [] enc \in {"UTF16_LE", "UFT16"} -> Each(Le2, All(Enc16, cs))
                    [] enc = "UTF16_BE" -> Each(Be2, All(Enc16, cs))
                    [] enc \in {"UTF32_LE", "UTF32", "Wchar"} -> Each(Le4, cs)
                    [] enc = "UTF32_be" -> Each(Be4, cs)
                    [] enc = "Latin1" -> [i \in 1..Len(cs) |-> IF cs[i] < 256 THEN cs[i] ELSE QM]
BOM == <<65279>>
Units2(b, hi, lo) == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1 + hi] * 256 + b[2 * i - 1 + lo]]
Units4(b, h, m, l) == [i \in 1..(Len(b) \div 4) |-> b[4 * i - 3 + h] * 65536 + b[4 * i - 3 + m] * 256 + b[4 * i - 3 + l]]
\* which encoding a file is in when nobody tells: by its mark, or by how it begins
Guess(b) == LET p(x) == At(b, 1, x) IN
  IF p(<<0, 0, 254, 255>>) \/ p(<<0, 0, 0, 60>>) THEN "UTF32_be"
  ELSE IF p(<<255, 254, 0, 0>>) \/ p(<<60, 0, 0, 0>>) THEN "UTF32_LE"
  ELSE IF p(<<254, 255>>) \/ p(<<0, 60>>) THEN "UTF16_BE"
  ELSE IF p(<<255, 254>>) \/ p(<<60, 0>>) THEN "UTF16_LE"
  ELSE IF Find(b, 1, SubSeq(Latin, 11, Len(Latin))) < Find(b, 1, <<QM, GT>>) /\ p(<<LT, QM>>) THEN "Latin1"
  ELSE "UTF8"
Chars(b, enc0) ==
  LET enc == IF enc0 = "Auto" THEN Guess(b) ELSE enc0
      cs == CASE enc = "UTF8" -> Dec8(b).cs
              [] enc \in {"UTF16_LE", "UFT16"} -> Dec16(Units2(b, 1, 0)).cs
              [] enc = "UTF16_BE" -> Dec16(Units2(b, 0, 1)).cs
              [] enc \in {"UTF32_LE", "UTF32", "Wchar"} -> Units4(b, 2, 1, 0)
              [] enc = "UTF32_be" -> Units4(b, 1, 2, 3)
              [] enc = "Latin1" -> b
  IN IF cs # <<>> /\ cs[1] = 65279 THEN Tail(cs) ELSE cs
Encodings == {"Auto", "UTF8", "UTF16_LE", "UTF16_BE", "UFT16", "UTF32_LE", "UTF32_be", "UTF32", "Wchar", "Latin1"}
\* children of a name, or all, in order
Collect(n, name) == SelectSeq(n.c, LAMBDA x : name = <<>> \/ x.n = name)
=============================================================================
