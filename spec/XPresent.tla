------------------------------ MODULE XPresent ------------------------------
(***************************************************************************)
(* How a schema document is written.  A document has an infoset (elements  *)
(* with namespaces, attributes, text); a style says how it is written down *)
(* as a sequence of lexical tokens; Read is the XML reader's view of such  *)
(* tokens.  The states are the styles that differ from the plain one in at *)
(* most XV_DEPTH dimensions; an action changes one more dimension.  In     *)
(* every state all documents read back as their infoset (ReadBack), and    *)
(* the tokens are printed: they become the inputs of the real code, whose  *)
(* output must not depend on the style (see XPresentTrace).                *)
(***************************************************************************)
EXTENDS XBuiltins, Sequences, Json, IOUtils, FiniteSets, FiniteSetsExt, SequencesExt

Projects == ndJsonDeserialize(IOEnv.XV_PROJECTS)   \* [files: <<[name, doc]>>]
Depth    == CHOOSE d \in 0..9 : ToString(d) = IOEnv.XV_DEPTH

Dims == <<"xs", "tgt", "foreign", "second", "redeclare", "layout", "intag", "comments", "pis", "text", "value", "quote", "order",
          "empty", "encoding", "doctype", "lists", "pads">>
Values ==    \* the first one is the plain one
  [xs |-> <<"xs", "xsd", "", "s-c.h1">>, tgt |-> <<"t", "tns", "">>, foreign |-> <<"f", "xs2", "o.t-1">>,
   second |-> <<"no", "yes">>, redeclare |-> <<"no", "same", "other">>,
   layout |-> <<"lines", "none", "crlf", "tabs", "wide">>, intag |-> <<"space", "newline", "tabs", "equals", "end">>,
   comments |-> <<"none", "outside", "everywhere", "markup">>, pis |-> <<"none", "everywhere">>,
   text |-> <<"plain", "cdata", "dec", "hex", "split", "comment", "pi">>, value |-> <<"plain", "dec", "hex">>,
   quote |-> <<"double", "single", "mixed">>, order |-> <<"ascending", "descending", "rotated">>,
   empty |-> <<"short", "space", "long", "white", "comment">>,
   encoding |-> <<"none", "utf-8", "UTF-8", "bom", "bom-utf-8", "iso-8859-1", "ISO-8859-1", "windows-1252", "us-ascii", "standalone">>,
   doctype |-> <<"no", "yes">>, lists |-> <<"space", "double", "newline", "tab", "padded">>,
   pads |-> <<"none", "spaces", "newlines", "tabs">>]    \* around the values of attributes that are names, numbers, addresses
Range_(s) == {s[i] : i \in 1..Len(s)}
DimValues(d) == Range_(Values[d])
Plain == [d \in DOMAIN Values |-> Values[d][1]]

VARIABLES sty, last      \* the style; the last dimension that was changed
vars == <<sty, last>>

Init == sty = Plain /\ last = 0
Changed(s) == {d \in DOMAIN Values : s[d] # Plain[d]}
(* Unprefixed names of components would be names of XML Schema.              *)
Sensible(s) == /\ ~(s.xs = "" /\ s.tgt = "")
               /\ s.redeclare = "other" => s.tgt # ""
Change(i, v) == /\ i > last /\ Cardinality(Changed(sty)) < Depth
                /\ v # Plain[Dims[i]]
                /\ last' = i
                /\ sty' = [sty EXCEPT ![Dims[i]] = v]
Next == \E i \in 1..Len(Dims) : \E v \in DimValues(Dims[i]) : Change(i, v)
Spec == Init /\ [][Next]_vars

(* ---- the infoset -------------------------------------------------------- *)
XS  == "http://www.w3.org/2001/XMLSchema"
Has(n, k) == k \in DOMAIN n.a
QNames == {"type", "ref", "base", "itemType", "memberTypes"}
Target(root) == IF Has(root, "tns") THEN root.a["tns"] ELSE "urn:example"
Foreign(root) == IF Has(root, "foreign") THEN root.a["foreign"] ELSE ""
ModelOnly == {"tns", "foreign"}

(* A reference: a built-in type, xml:..., f:... of the foreign namespace, or *)
(* a component of the document's own namespace.                              *)
NsOf(root, v) == IF IsBuiltin(v) /\ ~(Len(v) > 4 /\ SubSeq(v, 1, 4) = "xml:") THEN XS
                 ELSE IF Len(v) > 4 /\ SubSeq(v, 1, 4) = "xml:" THEN "xml"
                 ELSE IF Len(v) > 2 /\ SubSeq(v, 1, 2) = "f:" THEN Foreign(root) ELSE Target(root)
LocalOf(root, v) == IF NsOf(root, v) = "xml" THEN SubSeq(v, 5, Len(v))
                    ELSE IF Len(v) > 2 /\ SubSeq(v, 1, 2) = "f:" THEN SubSeq(v, 3, Len(v)) ELSE v
Refs(root, v) == [i \in 1..Len(v) |-> [ns |-> NsOf(root, v[i]), n |-> LocalOf(root, v[i])]]
AsSeq(k, v) == IF k = "memberTypes" THEN v ELSE <<v>>
AttrInfo(root, n, k) ==
  IF k \in QNames THEN [n |-> k, q |-> Refs(root, AsSeq(k, n.a[k])), v |-> ""] ELSE [n |-> k, q |-> <<>>, v |-> n.a[k]]
RootAttrs(root) == {[n |-> "targetNamespace", q |-> <<>>, v |-> Target(root)]}
RECURSIVE Info(_, _), InfoSeq(_, _, _)
InfoSeq(root, ns, i) == IF i > Len(ns) THEN <<>> ELSE Info(root, ns[i]) \o InfoSeq(root, ns, i + 1)
Info(root, n) ==
  <<[e |-> "s", ns |-> XS, t |-> n.t,
     a |-> {AttrInfo(root, n, k) : k \in DOMAIN n.a \ ModelOnly} \cup (IF n.t = "schema" THEN RootAttrs(root) ELSE {}), x |-> ""]>>
  \o (IF n.x = "" THEN <<>> ELSE <<[e |-> "t", ns |-> "", t |-> "", a |-> {}, x |-> n.x]>>)
  \o InfoSeq(root, n.k, 1)
  \o <<[e |-> "e", ns |-> XS, t |-> n.t, a |-> {}, x |-> ""]>>

(* ---- writing ------------------------------------------------------------ *)
(* Tokens [k, p, n, a, v]: k kind, p prefix, n name, a attributes, v value or *)
(* form.  Attributes [p, n, q, v]: q the qualified names of its value.        *)
Tok(k, p, n, a, v) == [k |-> k, p |-> p, n |-> n, a |-> a, v |-> v]
Mark(k, v) == Tok(k, "", "", <<>>, v)
Second == "zz"      \* the second prefix of XML Schema
PrefixOf(s, ns, odd) ==
  CASE ns = XS -> IF s.second = "yes" /\ odd THEN Second ELSE s.xs
    [] ns = "xml" -> "xml"
    [] ns = "foreign" -> s.foreign
    [] OTHER -> s.tgt
Decl(p, ns) == [p |-> IF p = "" THEN "" ELSE "xmlns", n |-> IF p = "" THEN "xmlns" ELSE p, q |-> <<>>, v |-> ns]
Declarations(s, root) ==
  <<Decl(s.xs, XS), Decl(s.tgt, Target(root))>>
  \o (IF s.second = "yes" THEN <<Decl(Second, XS)>> ELSE <<>>)
  \o (IF Foreign(root) # "" THEN <<Decl(s.foreign, Foreign(root))>> ELSE <<>>)
Qual(s, root, r, odd) ==
  [p |-> PrefixOf(s, IF r.ns = Foreign(root) THEN "foreign" ELSE r.ns, odd), n |-> r.n]
Ordered(s, as) ==
  CASE s.order = "ascending" -> as
    [] s.order = "descending" -> [i \in 1..Len(as) |-> as[Len(as) + 1 - i]]
    [] OTHER -> IF as = <<>> THEN as ELSE SubSeq(as, 2, Len(as)) \o <<as[1]>>
AttrTok(s, root, i, odd) ==
  [p |-> "", n |-> i.n, q |-> [j \in 1..Len(i.q) |-> Qual(s, root, i.q[j], odd # (j % 2 = 0))], v |-> i.v]
AttrKeys == <<"abstract", "attributeFormDefault", "base", "block", "default", "elementFormDefault", "final", "fixed", "form", "id",
              "itemType", "maxOccurs", "memberTypes", "minOccurs", "mixed", "name", "namespace", "nillable", "processContents",
              "public", "ref", "schemaLocation", "source", "system", "targetNamespace", "type", "use", "value", "version", "xml:lang",
              "xpath">>
SortedAttrs(is) ==
  LET RECURSIVE F(_)
      F(i) == IF i > Len(AttrKeys) THEN <<>>
              ELSE (IF \E x \in is : x.n = AttrKeys[i] THEN <<CHOOSE x \in is : x.n = AttrKeys[i]>> ELSE <<>>) \o F(i + 1)
  IN F(1)
(* Namespaces may be declared again, further inside; and bound to another    *)
(* prefix there.                                                             *)
Again(s, root, odd) ==
  CASE s.redeclare = "same" /\ odd -> <<Decl(s.tgt, Target(root)), Decl(PrefixOf(s, XS, odd), XS)>>
    [] s.redeclare = "other" /\ odd -> <<Decl("again", XS)>>
    [] OTHER -> <<>>
TagPrefix(s, odd) == IF s.redeclare = "other" /\ odd THEN "again" ELSE PrefixOf(s, XS, odd)
Between(s, d) ==
  (IF s.layout = "none" THEN <<>> ELSE <<Mark("white", s.layout)>>)
  \o (CASE s.comments = "everywhere" -> <<Mark("comment", " a comment ")>>
        [] s.comments = "markup" -> <<Mark("comment", "<xs:element name=\"no\" type=\"xs:int\"/></xs:schema>")>>
        [] OTHER -> <<>>)
  \o (IF s.pis = "everywhere" THEN <<Mark("pi", "do something=\"<xs:element/>\"")>> ELSE <<>>)
TextToks(s, x) ==
  CASE s.text = "split" -> <<Mark("half1", x), Mark("cdatahalf2", x)>>
    [] s.text = "comment" -> <<Mark("half1", x), Mark("comment", " not text "), Mark("half2", x)>>
    [] s.text = "pi" -> <<Mark("half1", x), Mark("pi", "not text"), Mark("half2", x)>>
    [] OTHER -> <<Mark("text", x)>>
IsText(n) == n.t \in {"documentation", "appinfo"}
Map_(s, root, n, odd) ==
  LET is == SortedAttrs({AttrInfo(root, n, k) : k \in DOMAIN n.a \ ModelOnly}
                        \cup (IF n.t = "schema" THEN RootAttrs(root) ELSE {}))
  IN [i \in 1..Len(is) |-> AttrTok(s, root, is[i], odd)]
RECURSIVE Write(_, _, _, _), WriteSeq(_, _, _, _, _, _)
(* Text takes no white space or comments of the layout.                      *)
WriteSeq(s, root, ns, i, d, txt) ==
  IF i > Len(ns) THEN <<>>
  ELSE (IF txt THEN <<>> ELSE Between(s, d)) \o Write(s, root, ns[i], d) \o WriteSeq(s, root, ns, i + 1, d, txt)
Write(s, root, n, d) ==
  LET odd  == d % 2 = 1
      own  == Map_(s, root, n, odd)
      as   == Ordered(s, own \o (IF n.t = "schema" THEN Declarations(s, root) ELSE Again(s, root, odd)))
      p    == IF n.t = "schema" THEN s.xs ELSE TagPrefix(s, odd)
      open == n.k # <<>> \/ n.x # ""
  IN IF ~open /\ (s.empty \in {"short", "space"} \/ (IsText(n) /\ s.empty # "long"))
     THEN <<Tok("empty", p, n.t, as, IF IsText(n) THEN "short" ELSE s.empty)>>
     ELSE <<Tok("start", p, n.t, as, "")>>
          \o (IF n.x = "" THEN <<>> ELSE TextToks(s, n.x))
          \o (IF ~open /\ s.empty = "white" THEN <<Mark("white", "wide")>>
              ELSE IF ~open /\ s.empty = "comment" THEN <<Mark("comment", "nothing")>> ELSE <<>>)
          \o WriteSeq(s, root, n.k, 1, d + 1, IsText(n) \/ n.x # "")
          \o (IF n.k # <<>> /\ ~IsText(n) /\ n.x = "" THEN Between(s, d) ELSE <<>>)
          \o <<Tok("end", p, n.t, <<>>, "")>>
Prolog(s) ==
  (IF s.encoding \in {"bom", "bom-utf-8"} THEN <<Mark("bom", "")>> ELSE <<>>)
  \o (IF s.encoding \in {"none", "bom"} THEN <<>> ELSE <<Mark("declaration", s.encoding)>>)
  \o (IF s.comments = "none" THEN <<>> ELSE <<Mark("white", "lines"), Mark("comment", " before ")>>)
  \o (IF s.doctype = "yes" THEN <<Mark("doctype", "")>> ELSE <<>>)
  \o (IF s.pis = "none" THEN <<>> ELSE <<Mark("pi", "xml-stylesheet href=\"x\"")>>)
Epilog(s) == (IF s.comments = "none" THEN <<>> ELSE <<Mark("comment", " after ")>>) \o <<Mark("white", "lines")>>
Document(s, doc) == Prolog(s) \o Write(s, doc, doc, 0) \o Epilog(s)

(* ---- reading ------------------------------------------------------------ *)
(* Namespaces: a stack of functions from prefixes to names.                  *)
Scope(env, as) ==
  LET ds == {i \in 1..Len(as) : as[i].p = "xmlns" \/ (as[i].p = "" /\ as[i].n = "xmlns")}
      P(i) == IF as[i].p = "" THEN "" ELSE as[i].n
  IN [p \in DOMAIN env \cup {P(i) : i \in ds} |->
        IF \E i \in ds : P(i) = p THEN as[CHOOSE i \in ds : P(i) = p].v ELSE env[p]]
IsDecl(a) == a.p = "xmlns" \/ (a.p = "" /\ a.n = "xmlns")
Text_(out, x, half) ==    \* adjacent text is one text
  LET l == Len(out) IN
  IF half = 2 /\ l > 0 /\ out[l].e = "t" THEN out
  ELSE Append(out, [e |-> "t", ns |-> "", t |-> "", a |-> {}, x |-> x])
ReadOne(st, tok) ==
  CASE tok.k \in {"start", "empty"} ->
         LET env == Scope(st.env[Len(st.env)], tok.a)
             own == SelectSeq(tok.a, LAMBDA a : ~IsDecl(a))
             as  == {[n |-> own[i].n, v |-> own[i].v,
                      q |-> [j \in 1..Len(own[i].q) |->
                               [ns |-> IF own[i].q[j].p = "xml" THEN "xml" ELSE env[own[i].q[j].p], n |-> own[i].q[j].n]]] :
                     i \in 1..Len(own)}
             s   == [e |-> "s", ns |-> env[tok.p], t |-> tok.n, a |-> as, x |-> ""]
             e   == [e |-> "e", ns |-> env[tok.p], t |-> tok.n, a |-> {}, x |-> ""]
         IN IF tok.k = "empty" THEN [st EXCEPT !.out = @ \o <<s, e>>]
            ELSE [st EXCEPT !.out = Append(@, s), !.env = Append(@, env)]
    [] tok.k = "end" ->
         [st EXCEPT !.out = Append(@, [e |-> "e", ns |-> st.env[Len(st.env)][tok.p], t |-> tok.n, a |-> {}, x |-> ""]),
                    !.env = SubSeq(@, 1, Len(@) - 1)]
    [] tok.k \in {"text", "half1"} -> [st EXCEPT !.out = Text_(@, tok.v, 1)]
    [] tok.k \in {"half2", "cdatahalf2"} -> [st EXCEPT !.out = Text_(@, tok.v, 2)]
    [] OTHER -> st
Read(toks) == FoldLeft(ReadOne, [out |-> <<>>, env |-> <<[p \in {} |-> ""]>>], toks).out

(* Every style gives every document back as it was.                          *)
ReadBack ==
  Sensible(sty) =>
    \A i \in 1..Len(Projects) : \A j \in 1..Len(Projects[i].files) :
      LET d == Projects[i].files[j].doc IN Read(Document(sty, d)) = Info(d, d)

Styles == [i \in 1..Len(Dims) |-> sty[Dims[i]]]
Printed ==
  Sensible(sty) =>
    \A i \in 1..Len(Projects) :
      PrintT("XV-PRES " \o ToJson([p |-> i, s |-> sty, c |-> Cardinality(Changed(sty)),
               f |-> [j \in 1..Len(Projects[i].files) |->
                        [name |-> Projects[i].files[j].name, toks |-> Document(sty, Projects[i].files[j].doc)]]]))
=============================================================================
