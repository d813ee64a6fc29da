------------------------------- MODULE XInput -------------------------------
(***************************************************************************)
(* What may be given as a schema: any text.  A text is a sequence of       *)
(* tokens [k: kind, s: text, n: name of a tag, f: what it means for the    *)
(* verdict], of any vocabulary, possibly with faults, possibly cut off     *)
(* after any number of characters.  The verdict on a text is               *)
(*   "must"   it isn't well-formed, or a bound isn't a number: an error    *)
(*   "may"    parsers are free to be strict about it                       *)
(*   "ok"     well-formed, whatever it means: no error                     *)
(* and never is a crash or an endless run in order.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

Random == IOEnv.XV_RANDOM = "yes"
EnvN(name) == CHOOSE n \in 1..60 : ToString(n) = IOEnv[name]
MaxTokens == EnvN("XV_TOKENS")
MaxFaults == EnvN("XV_FAULTS") - 1
Some(S) == IF Random THEN {RandomElement(S)} ELSE S

Worse(a, b) == IF "must" \in {a, b} THEN "must" ELSE IF "may" \in {a, b} THEN "may" ELSE "ok"
Tok(k, s) == [k |-> k, s |-> s, n |-> "", f |-> "ok"]

(******************************* vocabulary ********************************)
AllTags == {"schema", "element", "complexType", "simpleType", "sequence", "choice", "all", "any", "group", "attribute",
  "attributeGroup", "anyAttribute", "restriction", "extension", "list", "union", "enumeration", "pattern", "maxLength",
  "fractionDigits", "whiteSpace", "simpleContent", "complexContent", "annotation", "documentation", "appinfo", "import", "include",
  "key", "redefine", "notation"}
Foreign == {"f:Thing", "f:element", "html", "f:choice"}
FewTags == {"element", "complexType", "choice", "annotation"}
Tags == IF Random THEN {"xs:" \o t : t \in AllTags} \cup Foreign ELSE {"xs:" \o t : t \in FewTags}
Bounded == {"xs:element", "xs:group", "xs:choice", "xs:sequence"}
At(n, v) == [n |-> n, v |-> v, f |-> "ok"]
Odd(n, v) == [n |-> n, v |-> v, f |-> "may"]
Bad(n, v) == [n |-> n, v |-> v, f |-> "must"]
Refs == {"xs:int", "t:N1", "t:N2", "N1", "nowhere:X", "xml:lang"}
ManyAts == {At("name", v) : v \in {"N1", "N2", "N3", "n-4", "n.5"}} \cup {Odd("name", v) : v \in {"", " ", "a b", "1x", "a:b:c", ":"}}
   \cup {At(a, v) : a \in {"type", "ref", "base", "itemType", "memberTypes"}, v \in Refs}
   \cup {Odd(a, v) : a \in {"type", "ref", "base", "itemType"}, v \in {"", ":", "a:b:c", " t:N1 "}}
   \cup {At("memberTypes", v) : v \in {"", "xs:int t:N1", "  t:N1   t:N2 "}}
   \cup {At("use", v) : v \in {"required", "sometimes", ""}} \cup {At("value", v) : v \in {"", "v", "-1", "x1y"}}
   \cup {At("maxOccurs", v) : v \in {"0", "1", "2", "unbounded", " 2", "+2", "99999999999999999999", " unbounded "}} \cup {Odd("maxOccurs", v) : v \in {"-1"}}
   \cup {Bad("maxOccurs", v) : v \in {"x", "", "1.5", "many", "2 or 3", "Unbounded", "0x1g", "- 1", " ", "9999999999999999999x"}}
   \cup {Odd("schemaLocation", v) : v \in {"missing.xsd", "s.xsd", ".", "..", "", "http://localhost/x.xsd"}}
   \cup {At("namespace", v) : v \in {"urn:t", "urn:x", ""}} \cup {At("mixed", "?"), At("unbounded", "0"), At("unbounded", "1"), At("f:a", "1")}
FewAtts == {<<>>, <<At("name", "N1")>>, <<At("name", "N2"), Bad("maxOccurs", "x")>>}
AtNames == {a.n : a \in ManyAts}
AttrSets(state) ==     \* (the argument keeps TLC from choosing once and for all)
  IF ~Random THEN FewAtts
  ELSE LET One == LET n == RandomElement(AtNames \cup {"name", state}) IN RandomElement({a \in ManyAts : a.n = IF n = state THEN "name" ELSE n})
           a == TLCEval(One)  b == TLCEval(One)  c == TLCEval(One)
                 IN {<<>>, <<a>>} \cup (IF a.n # b.n THEN {<<a, b>>} ELSE {}) \cup (IF Cardinality({a.n, b.n, c.n}) = 3 THEN {<<a, b, c>>} ELSE {})

RECURSIVE AttrText(_)
AttrText(as) == IF as = <<>> THEN "" ELSE " " \o Head(as).n \o "='" \o Head(as).v \o "'" \o AttrText(Tail(as))
RECURSIVE AttrVerdict(_, _)
AttrVerdict(tag, as) ==
  IF as = <<>> THEN "ok"
  ELSE LET a == Head(as)
       IN Worse(IF a.n = "maxOccurs" /\ tag \notin Bounded /\ a.f = "must" THEN "may" ELSE a.f, AttrVerdict(tag, Tail(as)))
(* Components without a name may be refused.                                 *)
Named == {"xs:element", "xs:complexType", "xs:simpleType", "xs:attribute", "xs:group", "xs:attributeGroup", "f:element"}
TagVerdict(tag, as) ==
  Worse(AttrVerdict(tag, as), IF tag \in Named /\ \A i \in DOMAIN as : as[i].n # "name" THEN "may" ELSE "ok")
Spaces == " xmlns:xs='http://www.w3.org/2001/XMLSchema' xmlns:t='urn:t' xmlns:f='urn:f' targetNamespace='urn:t'"
Start(tag, as, root) == [k |-> "start", s |-> "<" \o tag \o (IF root THEN Spaces ELSE "") \o AttrText(as) \o ">", n |-> tag, f |-> TagVerdict(tag, as)]
Empty(tag, as, root) == [k |-> "empty", s |-> "<" \o tag \o (IF root THEN Spaces ELSE "") \o AttrText(as) \o "/>", n |-> tag, f |-> TagVerdict(tag, as)]
End(tag) == [k |-> "end", s |-> "</" \o tag \o ">", n |-> tag, f |-> "ok"]

Blank == {" ", "{n}", "{n}{t} "}      \* {n}, {t}, {xFF}: characters TLA+ strings don't have
Inert == {Tok("markup", "<!-- a <b> & c -->"), Tok("markup", "<?go away?>")} \cup {Tok("text", s) : s \in Blank}
Within == Inert \cup {Tok("text", "text"), Tok("markup", "&amp;"), Tok("markup", "&#65;"), Tok("markup", "<![CDATA[<a>&</b>]]>")}
Latin == Tok("markup", "<?xml version='1.0' encoding='ISO-8859-1' standalone='yes'?>")
Decls == {Tok("markup", "<?xml version='1.0'?>"), Tok("markup", "<?xml version='1.0' encoding='UTF-8'?>"), Latin}
DocTypes == {Tok("markup", "<!DOCTYPE schema>"), Tok("markup", "<!DOCTYPE schema [<!ELEMENT a (b)>]>")}
(* Faults: a text with one of these isn't well-formed.                       *)
F(s) == [Tok("fault", s) EXCEPT !.f = "must"]
Faults == {F("&nope;"), F("& "), F("&#xZZ;"), F("&#0;"), F("&#x1F;"), F("&amp "), F("< "), F("<1a/>"), F("<>"), F("<xs:element name/>"),
  F("<xs:element name=N9/>"), F("<xs:element name='N9/>"), F("<xs:element name='a<b'/>"), F("<xs:element name='&nope;'/>"), F("]]>"),
  F("<!-- a -- b -->"), F("<!-- never ends"), F("<![CDATA[ never ends"), F("<?never ends"), F("{x01}"), F("{xFF}"), F("{xC3}{x28}"), F("<![BOGUS["), F("</ >"),
  F("<xs:element"), F("<xs:element name='a'"), F("</xs:element")}
NoUTF8 == {F("{xFF}"), F("{xC3}{x28}")}
Endless == {"<!-- never ends", "<![CDATA[ never ends", "<?never ends"}      \* hide what follows
(* And these are, strictly speaking, faults that many readers let pass.      *)
P(s) == [Tok("lenient", s) EXCEPT !.f = "may"]
Lenient == {P("<xs:element name='a' name='b'/>"), P("<xs:element name='a'type='b'/>"), P("<unbound:prefix/>"), P("<?xml version='1.0'?>"), P("<!DOCTYPE a>"),
  P("<a:b:c/>"), P("<:a/>"), P("{xEF}{xBB}{xBF}")}
BadDecls == {F("<?xml version='1.0' encoding='no-such-charset'?>"), P("<?xml version='1.1'?>"), P("<?xml encoding='UTF-8'?>")}

(******************************** the verdict ******************************)
Begin == [open |-> <<>>, rooted |-> FALSE, v |-> "ok"]
InNotes(st) == \E i \in DOMAIN st.open : st.open[i] \in {"xs:annotation", "xs:union"}
Weigh(st, t) ==     \* what attributes mean isn't looked at within annotations, nor within unions (where no bounds may be)
  IF t.k \in {"start", "empty"} /\ InNotes(st) /\ t.f = "must" THEN Worse(st.v, "may") ELSE Worse(st.v, t.f)
Read(st, t) ==
  LET v == Weigh(st, t)  outside == st.open = <<>> IN
  CASE t.k = "start" -> [open |-> Append(st.open, t.n), rooted |-> TRUE, v |-> IF outside /\ st.rooted THEN Worse(v, "may") ELSE v]
    [] t.k = "empty" -> [st EXCEPT !.rooted = TRUE, !.v = IF outside /\ st.rooted THEN Worse(v, "may") ELSE v]
    [] t.k = "end" -> IF outside \/ st.open[Len(st.open)] # t.n THEN [st EXCEPT !.v = "must"]
                      ELSE [st EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
    [] t.k = "text" -> [st EXCEPT !.v = IF outside /\ t.s \notin Blank THEN Worse(v, "may") ELSE v]
    [] t.k = "markup" -> [st EXCEPT !.v = IF outside /\ t \in Within \ Inert THEN Worse(v, "may") ELSE v]
    [] OTHER -> [st EXCEPT !.v = v]
RECURSIVE ReadAll(_, _)
ReadAll(st, ts) == IF ts = <<>> THEN st ELSE ReadAll(Read(st, Head(ts)), Tail(ts))
AtEnd(st) == IF st.open # <<>> \/ ~st.rooted THEN "must" ELSE st.v
Verdict(ts) == AtEnd(ReadAll(Begin, ts))
(* Cut off within token j, 0 < c characters of which are left.               *)
VerdictCut(ts, j, c) ==
  LET st == ReadAll(Begin, SubSeq(ts, 1, j - 1))
  IN IF c = Len(ts[j].s) THEN Verdict(SubSeq(ts, 1, j))
     ELSE IF ts[j].k = "text" THEN AtEnd(IF st.open = <<>> /\ ts[j].s \notin Blank THEN [st EXCEPT !.v = Worse(@, "may")] ELSE st)
     ELSE IF ts[j].k \in {"fault", "lenient"} THEN Worse(AtEnd(st), "may")
     ELSE "must"

(******************************** the machine ******************************)
VARIABLES toks, st, faults, size, pc
vars == <<toks, st, faults, size, pc>>
Init == /\ toks = <<>> /\ st = Begin
        /\ faults \in 0..MaxFaults /\ size \in 0..MaxTokens /\ pc = "text"
Put(t) == toks' = Append(toks, t) /\ st' = Read(st, t)
Declares == /\ Random /\ pc = "text" /\ toks = <<>>
            /\ \E t \in {RandomElement(Decls), RandomElement(IF faults > 0 THEN BadDecls ELSE Decls)} : Put(t)
            /\ UNCHANGED <<faults, size, pc>>
Room == pc = "text" /\ Len(toks) < size
Opens == /\ Room /\ (st.open = <<>> => ~st.rooted)
         /\ \E tag \in (IF st.rooted THEN Some(Tags) ELSE {"xs:schema"}), as \in IF Random \/ st.rooted THEN AttrSets(pc) ELSE {<<>>}, e \in (IF Random THEN Some(1..4) ELSE {1, 2}) :
              /\ Put(IF e = 1 /\ st.rooted THEN Empty(tag, as, FALSE) ELSE Start(tag, as, ~st.rooted))
              /\ e > 2 => st.rooted
         /\ UNCHANGED <<faults, size, pc>>
Closes == /\ Room /\ st.open # <<>> /\ (Random /\ Len(toks) + 2 < size => Len(st.open) > 1) /\ Put(End(st.open[Len(st.open)])) /\ UNCHANGED <<faults, size, pc>>
Other == /\ Room
         /\ \E t \in Some(IF toks = <<>> THEN {t \in Inert : t.k = "markup"} \cup DocTypes ELSE IF st.open = <<>> THEN Inert ELSE IF Random THEN Within ELSE {CHOOSE t \in Inert : TRUE}) : Put(t)
         /\ UNCHANGED <<faults, size, pc>>
Faulty == /\ Room /\ faults > 0
          /\ \E t \in Some((Faults \ (IF \E i \in DOMAIN toks : toks[i] = Latin THEN NoUTF8 ELSE {})) \cup (IF st.open # <<>> /\ ~InNotes(st) THEN Lenient ELSE {})
                           \cup {End("xs:elemen"), End("xs:schema"), End("t:element")}
                           \cup (IF st.rooted /\ st.open = <<>> THEN {Tok("text", "trailing"), Start("xs:schema", <<>>, TRUE), Empty("xs:schema", <<>>, TRUE)} ELSE {})) : Put(t)
          /\ size' = IF toks'[Len(toks')].s \in Endless THEN Len(toks') ELSE size
          /\ faults' = faults - 1 /\ UNCHANGED pc
(* Most texts close what they open.                                          *)
CloseAll == /\ pc = "text" /\ Len(toks) = size /\ pc' = "closing" /\ UNCHANGED <<toks, st, faults, size>>
ClosesOne == /\ pc = "closing" /\ st.open # <<>> /\ Put(End(st.open[Len(st.open)])) /\ UNCHANGED <<faults, size, pc>>
Finish == /\ \/ pc = "closing" /\ st.open = <<>>
             \/ pc = "text" /\ Len(toks) = size
          /\ pc' = "done" /\ UNCHANGED <<toks, st, faults, size>>
Next == (Random /\ Opens) \/ Declares \/ Opens \/ Closes \/ Other \/ Faulty \/ CloseAll \/ ClosesOne \/ Finish
Spec == Init /\ [][Next]_vars

(* Judging step by step and as a whole is the same; a text with a fault is   *)
(* never fine, one without any that's closed is.                             *)
Consistent == /\ st = ReadAll(Begin, toks)
              /\ (\E i \in DOMAIN toks : toks[i].k = "fault") => Verdict(toks) = "must"
              /\ (st.open # <<>>) => Verdict(toks) = "must"
              /\ toks # <<>> => VerdictCut(toks, Len(toks), Len(toks[Len(toks)].s)) = Verdict(toks)
Told == pc = "done" => PrintT("XV-INPUT " \o ToJson(toks))
=============================================================================
