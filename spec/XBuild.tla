------------------------------- MODULE XBuild -------------------------------
(***************************************************************************)
(* All schema documents of a grammar, up to a number of units.  A unit is  *)
(* a component, a member, a compositor, a facet..., with the nodes around  *)
(* it.  A state is a document under construction; every finished, valid    *)
(* document is printed and becomes an input of the real code (and, with    *)
(* what the code made of it, a record for XTrace).                         *)
(*   XV_GRAM  the grammar, named after the property                        *)
(*   XV_UNITS the budget; XV_TOP the number of top-level components        *)
(***************************************************************************)
EXTENDS XMeaning, Json, IOUtils

Gram == IOEnv.XV_GRAM
MaxUnits == CHOOSE i \in 0..20 : ToString(i) = IOEnv.XV_UNITS
MaxTop   == CHOOSE i \in 0..20 : ToString(i) = IOEnv.XV_TOP

VARIABLES stk, units, top, done,
          pick     \* C03: the built-in type all units of the document are about;
                   \* C11: the beginning of the components' names
vars == <<stk, units, top, done, pick>>

(* A unit: the innermost node n, the nodes around it, whether it is open.    *)
U(n)        == [wrap |-> <<>>, n |-> n, open |-> FALSE]
O(n)        == [wrap |-> <<>>, n |-> n, open |-> TRUE]
W(wrap, n)  == [wrap |-> wrap, n |-> n, open |-> FALSE]
OW(wrap, n) == [wrap |-> wrap, n |-> n, open |-> TRUE]
L(t, a)     == Node(t, a, <<>>)
With(a, k, v) == IF v = "" THEN a ELSE (k :> v) @@ a
Sub(n, kid) == [n EXCEPT !.k = Append(@, kid)]

Member == "m" \o ToString(units + 1)
TopName(i) == (IF Gram \in {"C11", "C22"} THEN pick ELSE "C") \o <<"a", "b", "c", "d", "e", "f">>[i]
Here   == TopName(top + 1)
Tops   == {TopName(i) : i \in 1..MaxTop}
NameA(n) == [name |-> n]

(* ---- units -------------------------------------------------------------- *)
Restr(base)   == L("restriction", [base |-> base])
SimpleR(name, base) == U(Node("simpleType", NameA(name), <<Restr(base)>>))
SimpleL(name, item) == U(Node("simpleType", NameA(name), <<L("list", [itemType |-> item])>>))
(* Lists of a type defined in place; restrictions of a list defined in place. *)
SimpleLI(name, base) == OW(<<L("simpleType", NameA(name)), L("list", NoAttr), L("simpleType", NoAttr)>>, Restr(base))
SimpleRL(name, item) ==
  U(Node("simpleType", NameA(name),
         <<Node("restriction", NoAttr, <<Node("simpleType", NoAttr, <<L("list", [itemType |-> item])>>), L("length", [value |-> "2"])>>)>>))
(* A union of types that are defined in place, as inner says.                *)
SimpleUI(name, ms, inner) ==
  U(Node("simpleType", NameA(name), <<Node("union", [memberTypes |-> ms], Map(inner, LAMBDA n : Node("simpleType", NoAttr, <<n>>)))>>))
SimpleUIs(name) ==
  {SimpleUI(name, <<"int">>, inner) : inner \in {
     <<L("list", [itemType |-> "int"])>>, <<L("union", [memberTypes |-> <<"string">>]), Restr("token")>>,
     <<Node("union", NoAttr, <<Node("simpleType", NoAttr, <<L("list", [itemType |-> "token"])>>)>>), L("list", [itemType |-> "token"])>>}}
(* Lists and unions defined in place, as the type of a member or a global. *)
InType1(k) == Node("simpleType", NoAttr, <<k>>)
InPlaces ==
  {L("list", [itemType |-> "int"]), Node("list", NoAttr, <<InType1(Restr("token"))>>), L("union", [memberTypes |-> <<"int", "Ca">>]),
   Node("union", NoAttr, <<InType1(Restr("token")), InType1(L("list", [itemType |-> "int"]))>>),
   Node("restriction", NoAttr, <<InType1(L("list", [itemType |-> "int"])), L("length", [value |-> "2"])>>)}
InlineK(t, name, k) == U(Node(t, NameA(name), <<InType1(k)>>))
SimpleK(name, k)    == U(Node("simpleType", NameA(name), <<k>>))
SimpleU(name, ms)   == U(Node("simpleType", NameA(name), <<L("union", [memberTypes |-> ms])>>))
OpenSimple(name, base) == OW(<<L("simpleType", NameA(name))>>, Restr(base))
Complex(name)  == O(L("complexType", NameA(name)))
ComplexX(name, base) == OW(<<L("complexType", NameA(name)), L("complexContent", NoAttr)>>, L("extension", [base |-> base]))
ComplexS(name, base) == OW(<<L("complexType", NameA(name)), L("simpleContent", NoAttr)>>, L("extension", [base |-> base]))
Anon(name)     == OW(<<L("element", NameA(name))>>, L("complexType", NoAttr))
AnonX(name, base) == OW(<<L("element", NameA(name)), L("complexType", NoAttr), L("complexContent", NoAttr)>>, L("extension", [base |-> base]))
AnonS(name, base) == OW(<<L("element", NameA(name)), L("complexType", NoAttr), L("simpleContent", NoAttr)>>, L("extension", [base |-> base]))
El(name, type) == U(L("element", [name |-> name, type |-> type]))
Inline(t, name, base) == U(Node(t, NameA(name), <<Node("simpleType", NoAttr, <<Restr(base)>>)>>))
InlineF(t, name, base, f, v) ==
  U(Node(t, NameA(name), <<Node("simpleType", NoAttr, <<Node("restriction", [base |-> base], <<L(f, [value |-> v])>>)>>)>>))
(* Elements and attributes called as their type.                             *)
Sames == {El(n, n) : n \in Tops} \cup {U(L("attribute", [name |-> n, type |-> n])) : n \in Tops}
At(name, type) == U(L("attribute", [name |-> name, type |-> type]))
GrRef(n)       == U(L("group", [ref |-> n]))
AgRef(n)       == U(L("attributeGroup", [ref |-> n]))
AttrOf(u, k, v) == IF v = "" THEN u ELSE [u EXCEPT !.n.a = With(@, k, v)]
AttrOfOuter(u, k, v) == IF v = "" THEN u ELSE IF u.wrap = <<>> THEN AttrOf(u, k, v) ELSE [u EXCEPT !.wrap[1].a = With(@, k, v)]
Doc(u, text) ==    \* documents the outermost node
  LET ann == Node("annotation", NoAttr, <<[L("documentation", NoAttr) EXCEPT !.x = text]>>)
  IN IF u.wrap = <<>> THEN [u EXCEPT !.n.k = <<ann>> \o @] ELSE [u EXCEPT !.wrap[1].k = <<ann>> \o @]

Parent == stk[Len(stk)].n.t
InType == Parent \in {"complexType", "extension"}
Simple == Parent = "extension" /\ stk[Len(stk)].wrap # <<>>
            /\ stk[Len(stk)].wrap[Len(stk[Len(stk)].wrap)].t = "simpleContent"
IsComp(n) == n.t \in Compositors
NoParticle == \A i \in 1..Len(stk[Len(stk)].n.k) : ~IsComp(stk[Len(stk)].n.k[i]) /\ stk[Len(stk)].n.k[i].t # "group"
NoAttribute == \A i \in 1..Len(stk[Len(stk)].n.k) : stk[Len(stk)].n.k[i].t \notin {"attribute", "attributeGroup"}
Comps(occ) == {AttrOf(O(L(t, NoAttr)), "maxOccurs", o) : t \in {"sequence", "choice"}, o \in occ}
Particle == InType /\ ~Simple /\ NoParticle /\ NoAttribute
Many == {"", "1", "2", "unbounded"}
All_ == O(L("all", NoAttr))

(* ---- grammars ----------------------------------------------------------- *)
Units01 ==
  CASE Parent = "schema" ->
         {SimpleR(Here, "int"), SimpleL(Here, "string"), SimpleU(Here, <<"int", "string">>), Complex(Here),
          ComplexX(Here, "Ca"), ComplexS(Here, "string"), El(Here, "int"), Anon(Here), Inline("element", Here, "string"),
          U(Node("simpleType", NameA(Here), <<Node("list", NoAttr, <<Node("simpleType", NoAttr, <<Restr("token")>>)>>)>>)), SimpleRL(Here, "int"),
          At(Here, "string"), Inline("attribute", Here, "token"), O(L("group", NameA(Here))), O(L("attributeGroup", NameA(Here)))}
         \cup SimpleUIs(Here) \cup Sames
    [] InType -> (IF Particle THEN {O(L("sequence", NoAttr))} ELSE {}) \cup {At(Member, "int"), Inline("attribute", Member, "int")}
    [] Parent = "group" -> IF NoParticle THEN {O(L("choice", NoAttr))} ELSE {}
    [] Parent = "attributeGroup" -> {At(Member, "int")}
    [] OTHER -> {El(Member, "int"), Anon(Member), Inline("element", Member, "string")}

Units02 ==
  CASE Parent = "schema" ->
         {Complex(Here), Anon(Here), O(L("group", NameA(Here))), O(L("attributeGroup", NameA(Here)))}
    [] InType -> (IF Particle THEN Comps({""}) \cup {All_} ELSE {})
                 \cup {At(Member, "int"), InlineF("attribute", Member, "string", "enumeration", "x")}
                 \cup {AgRef(n) : n \in Tops}
    [] Parent = "group" -> IF NoParticle THEN Comps({""}) ELSE {}
    [] Parent = "attributeGroup" -> {At(Member, "int"), Inline("attribute", Member, "int")} \cup {AgRef(n) : n \in Tops}
    [] Parent = "all" -> {El(Member, "int"), Anon(Member)}
    [] OTHER -> {El(Member, "int"), Anon(Member), Inline("element", Member, "string"),
                 InlineF("element", Member, "string", "length", "3"), O(L("sequence", NoAttr))}
                \cup {GrRef(n) : n \in Tops}

Units03(b) ==
  CASE Parent = "schema" ->
         {SimpleR(Here, b), SimpleL(Here, b), SimpleRL(Here, b), SimpleU(Here, <<b>>), Complex(Here), ComplexS(Here, b), El(Here, b),
          Inline("element", Here, b), Anon(Here), AnonS(Here, b), At(Here, b), Inline("attribute", Here, b),
          O(L("group", NameA(Here))), O(L("attributeGroup", NameA(Here)))}
    [] InType -> (IF Particle THEN {O(L("sequence", NoAttr))} ELSE {})
                 \cup {At(Member, b), Inline("attribute", Member, b), InlineF("attribute", Member, b, "pattern", "x")}
    [] Parent = "group" -> IF NoParticle THEN {O(L("sequence", NoAttr))} ELSE {}
    [] Parent = "attributeGroup" -> {At(Member, b), Inline("attribute", Member, b)}
    [] OTHER -> {El(Member, b), AttrOf(El(Member, b), "maxOccurs", "2"), Inline("element", Member, b),
                 InlineF("element", Member, b, "maxLength", "3")}

Units04 ==
  CASE Parent = "schema" ->
         {SimpleR(Here, "decimal")} \cup {SimpleR(Here, n) : n \in Tops} \cup {SimpleL(Here, n) : n \in Tops}
         \cup {U(Node("simpleType", NameA(Here), <<Node("list", NoAttr, <<Node("simpleType", NoAttr, <<Restr(n)>>)>>)>>)) : n \in Tops}
         \cup {SimpleU(Here, <<n, "string">>) : n \in Tops} \cup {El(Here, n) : n \in Tops}
         \cup {ComplexX(Here, n) : n \in Tops} \cup {ComplexS(Here, n) : n \in Tops} \cup {Complex(Here)} \cup Sames
    [] InType -> (IF Particle THEN {O(L("sequence", NoAttr))} ELSE {}) \cup {At(Member, n) : n \in Tops}
                 \cup {U(L("attribute", [ref |-> n])) : n \in Tops}
    [] OTHER -> {El(Member, n) : n \in Tops} \cup {U(L("element", [ref |-> n])) : n \in Tops}

Units05 ==
  CASE Parent = "schema" -> {Complex(Here), O(L("group", NameA(Here)))}
    [] Particle -> Comps(Many \cup {"0"}) \cup {All_} \cup {AttrOf(GrRef(n), "maxOccurs", o) : n \in Tops, o \in {"", "2", "1"}}
    [] Parent = "group" -> IF NoParticle THEN Comps({"", "unbounded"}) ELSE {}
    [] Parent = "all" -> {El(Member, "decimal")}
    [] IsComp(stk[Len(stk)].n) ->
         {AttrOf(El(Member, "Ca"), "maxOccurs", o) : o \in {"", "1", "2"}}
         \cup {AttrOf(El(Member, "decimal"), "maxOccurs", o) : o \in {"", "0", "unbounded"}}
         \cup {AttrOfOuter(Anon(Member), "maxOccurs", o) : o \in {"", "3"}} \cup Comps({"", "1", "unbounded"})
         \cup {AttrOf(GrRef(n), "maxOccurs", o) : n \in Tops, o \in {"", "unbounded"}}
    [] OTHER -> {}

Uses == {"", "required", "optional", "prohibited"}
Units06 ==
  CASE Parent = "schema" -> {Complex(Here), ComplexS(Here, "string"), Anon(Here), O(L("attributeGroup", NameA(Here)))}
    [] InType \/ Parent = "attributeGroup" ->
         {AttrOf(At(Member, "int"), "use", u) : u \in Uses}
         \cup {AttrOf(Inline("attribute", Member, "token"), "use", u) : u \in {"", "required"}}
         \cup {AttrOf(InlineF("attribute", Member, "token", "enumeration", "x"), "use", u) : u \in {"", "required"}}
         \cup {AttrOf(InlineF("attribute", Member, "token", "pattern", "x"), "use", u) : u \in {"required"}}
         \cup {AttrOf(U(L("attribute", [ref |-> "xml:lang"])), "use", u) : u \in {"", "required"}}
    [] OTHER -> {}

Units07 ==
  CASE Parent = "schema" ->
         {Complex(Here), SimpleR(Here, "decimal"), ComplexS(Here, "string"), ComplexS(Here, "NMTOKENS"), AnonS(Here, "int")}
         \cup {ComplexX(Here, n) : n \in Tops} \cup {AnonX(Here, n) : n \in Tops}
         \cup {ComplexS(Here, n) : n \in Tops} \cup {SimpleR(Here, n) : n \in Tops}
    [] InType -> (IF Particle THEN {O(L("sequence", NoAttr))} ELSE {}) \cup {At(Member, "int")}
    [] OTHER -> {El(Member, "int"), Anon(Member), AnonS(Member, "string")} \cup {AnonX(Member, n) : n \in Tops}

EnumValue == (IF stk[Len(stk)].n.a["base"] = "int" THEN "" ELSE "v") \o ToString(units)
FacetUnits == {U(L("enumeration", [value |-> EnumValue])), U(L("pattern", [value |-> "a"])), U(L("length", [value |-> "2"])),
           U(L("whiteSpace", [value |-> "collapse"])), U(L("minInclusive", [value |-> "1"]))}
Units08 ==
  CASE Parent = "schema" ->
         {OpenSimple(Here, "string"), OpenSimple(Here, "int"), SimpleL(Here, "int"), SimpleU(Here, <<"int", "Ca">>),
          OW(<<L("element", NameA(Here)), L("simpleType", NoAttr)>>, Restr("token")),
          OW(<<L("attribute", NameA(Here)), L("simpleType", NoAttr)>>, Restr("token")),
          Complex(Here), SimpleLI(Here, "token"), SimpleRL(Here, "int"),
          OW(<<L("simpleType", NameA(Here)), L("union", [memberTypes |-> <<"int">>]), L("simpleType", NoAttr)>>, Restr("token"))}
         \cup SimpleUIs(Here) \cup {InlineK(t, Here, k) : t \in {"element", "attribute"}, k \in InPlaces} \cup {SimpleK(Here, k) : k \in InPlaces}
    [] Parent = "restriction" -> FacetUnits
    [] Parent = "complexType" -> (IF Particle THEN {O(L("sequence", NoAttr))} ELSE {})
         \cup {OW(<<L("attribute", NameA(Member)), L("simpleType", NoAttr)>>, Restr("token"))}
         \cup {InlineK("attribute", Member, k) : k \in InPlaces}
    [] Parent = "sequence" -> {OW(<<L("element", NameA(Member)), L("simpleType", NoAttr)>>, Restr("token"))}
         \cup {InlineK("element", Member, k) : k \in InPlaces}
    [] OTHER -> {}

(* Everything that has a part in imports, and in types that refer to others. *)
Basics11 == {"string", "time", "QName", "NMTOKENS"}
Units11 ==
  CASE Parent = "schema" ->
         UNION {{SimpleR(Here, b), SimpleL(Here, b), SimpleU(Here, <<b>>), ComplexS(Here, b), El(Here, b),
                 Inline("element", Here, b), At(Here, b), AnonS(Here, b)} : b \in Basics11}
         \cup {Complex(Here), Anon(Here), O(L("group", NameA(Here))), O(L("attributeGroup", NameA(Here)))}
         \cup UNION {{ComplexX(Here, n), El(Here, n), SimpleR(Here, n), SimpleL(Here, n), SimpleU(Here, <<n>>)} : n \in Tops} \cup {El(n, n) : n \in Tops}
    [] InType -> (IF Particle THEN {O(L("sequence", NoAttr)), GrRef(TopName(2))} ELSE {})
                 \cup {At(Member, b) : b \in Basics11} \cup {AgRef(n) : n \in Tops}
    [] Parent = "group" -> IF NoParticle THEN {O(L("sequence", NoAttr))} ELSE {}
    [] Parent = "attributeGroup" -> {At(Member, b) : b \in Basics11} \cup {AgRef(n) : n \in Tops}
    [] OTHER -> {AttrOf(El(Member, b), "maxOccurs", o) : b \in Basics11 \cup Tops, o \in {"", "2"}} \cup {GrRef(n) : n \in Tops}

(* Names that are hard on identifiers: many of them map to the same one.     *)
OddNames == {"a-b", "a.b", "aB", "AB", "a_b", "A-b", "a--b", "a.b-", "ab", "A1", "type", "self", "Self", "x:y", "xY", "fn", "a2b", "a-2b", "_a", "_", "_1"}
Units09 ==
  CASE Parent = "schema" ->
         UNION {{SimpleR(n, "string"), SimpleU(n, <<"int">>), Complex(n), El(n, "int"), Anon(n), O(L("group", NameA(n))),
                 O(L("attributeGroup", NameA(n)))} : n \in OddNames}
    [] InType -> (IF Particle THEN {O(L("sequence", NoAttr))} ELSE {})
                 \cup {At(n, "int") : n \in OddNames}
    [] Parent = "group" -> IF NoParticle THEN {O(L("sequence", NoAttr))} ELSE {}
    [] Parent = "attributeGroup" -> {At(n, "int") : n \in OddNames}
    [] OTHER -> {El(n, "int") : n \in OddNames}

Text == "doc" \o ToString(units)
Opt(us) == us \cup {Doc(u, Text) : u \in us}
Units10 ==
  CASE Parent = "schema" ->
         Opt({OpenSimple(Here, "string"), Complex(Here), Anon(Here), At(Here, "int"), El(Here, "int"), SimpleL(Here, "int"),
              SimpleU(Here, <<"int">>), O(L("attributeGroup", NameA(Here))), O(L("group", NameA(Here)))})
         \cup {U(Node("annotation", NoAttr, <<[L("documentation", NoAttr) EXCEPT !.x = Text]>>))}
    [] Parent = "restriction" -> {Doc(U(L("enumeration", [value |-> "v" \o ToString(units)])), Text)}
    [] InType -> (IF Particle THEN Opt({O(L("sequence", NoAttr))}) ELSE {})
                 \cup {Doc(At(Member, "int"), Text), Doc(InlineF("attribute", Member, "token", "length", "2"), Text)}
    [] Parent = "attributeGroup" -> {Doc(At(Member, "int"), Text), At(Member, "int")}
    [] Parent = "group" -> IF NoParticle THEN {O(L("sequence", NoAttr))} ELSE {}
    [] OTHER -> {Doc(El(Member, "int"), Text), El(Member, "int"), Doc(Anon(Member), Text), Doc(Inline("element", Member, "int"), Text)}

(* Schemas whose documents go through Go.                                     *)
Units20 ==
  CASE Parent = "schema" ->
         {Complex(Here), ComplexS(Here, "int"), SimpleR(Here, "string"), SimpleL(Here, "string"), Anon(Here), El(Here, "boolean")}
         \cup {ComplexX(Here, n) : n \in Tops} \cup {ComplexS(Here, n) : n \in Tops} \cup {El(Here, n) : n \in Tops}
         \cup {AnonX(Here, n) : n \in Tops} \cup {El(n, n) : n \in Tops}
    [] InType -> (IF Particle THEN Comps({"", "unbounded"}) \cup {All_} ELSE {})
                 \cup {AttrOf(At(Member, "string"), "use", u) : u \in {"", "required"}}
                 \cup {At(Member, n) : n \in Tops} \cup {U(L("attribute", [ref |-> "xml:lang"]))}
    [] Parent = "all" -> {El(Member, "decimal")} \cup {El(Member, n) : n \in Tops}
    [] OTHER -> {AttrOf(El(Member, n), "maxOccurs", o) : n \in {"string"} \cup Tops, o \in {"", "2"}}
                \cup {AttrOfOuter(Anon(Member), "maxOccurs", o) : o \in {"", "unbounded"}}
                \cup {AttrOf(El(Member, n), "minOccurs", "0") : n \in Tops}
                \cup {U(L("element", [ref |-> n])) : n \in Tops} \cup Comps({"", "2"})

(* Vocabulary beyond the grammars: what is known, in places where it isn't.  *)
ChaosTags == {"schema", "simpleType", "complexType", "element", "attribute", "group", "attributeGroup", "restriction", "extension",
              "list", "union", "sequence", "choice", "enumeration", "pattern", "length", "annotation", "documentation"}
ChaosAttrs(t) ==
  {NoAttr} \cup
  (CASE t \in {"simpleType", "complexType", "element", "attribute", "group", "attributeGroup"} -> {[name |-> Member]}
     [] t \in {"restriction", "extension"} -> {[base |-> "int"], [base |-> "Xx"]}
     [] t = "list" -> {[itemType |-> "int"]}
     [] t = "union" -> {[memberTypes |-> <<"int", "Xx">>]}
     [] t = "enumeration" -> {[value |-> "x"]}
     [] t = "choice" -> {[maxOccurs |-> "unbounded"]}
     [] OTHER -> {})
Units19 == {O(L(t, a)) : t \in ChaosTags, a \in {NoAttr}}
           \cup UNION {{O(L(t, a)) : a \in ChaosAttrs(t)} : t \in ChaosTags}

Units == CASE Gram = "C01" \/ Gram = "C21" -> Units01 [] Gram = "C02" -> Units02 [] Gram = "C04" -> Units04 [] Gram = "C05" -> Units05
           [] Gram = "C06" -> Units06 [] Gram = "C07" -> Units07 [] Gram = "C08" -> Units08 [] Gram = "C10" -> Units10
           [] Gram = "C19" -> Units19 [] Gram = "C09" -> Units09 [] Gram \in {"C11", "C22"} -> Units11
           [] Gram = "C20" -> Units20
           [] OTHER -> Units03(pick)

(* ---- the machine -------------------------------------------------------- *)
Init == /\ stk = <<[wrap |-> <<>>, n |-> L("schema", NoAttr)]>>
        /\ units = 0 /\ top = 0 /\ done = FALSE
        /\ pick \in IF Gram = "C03" THEN BuiltinNames ELSE IF Gram \in {"C11", "C22"} THEN {"C", "c-"} ELSE {""}

RECURSIVE Wrap(_, _)
Wrap(wrap, n) == IF wrap = <<>> THEN n ELSE Wrap(SubSeq(wrap, 1, Len(wrap) - 1), Sub(wrap[Len(wrap)], n))

AddTo(s, n) == [s EXCEPT ![Len(s)].n = Sub(@, n)]
Add(u) == /\ ~done /\ units < MaxUnits
          /\ Gram # "C19" /\ Len(stk) = 1 => top < MaxTop
          /\ units' = units + 1
          /\ top' = IF Len(stk) = 1 /\ u.n.t # "annotation" THEN top + 1 ELSE top
          /\ stk' = IF u.open THEN Append(stk, [wrap |-> u.wrap, n |-> u.n]) ELSE AddTo(stk, Wrap(u.wrap, u.n))
          /\ UNCHANGED <<done, pick>>
Close == /\ ~done /\ Len(stk) > 1
         /\ LET s == stk[Len(stk)] IN stk' = AddTo(SubSeq(stk, 1, Len(stk) - 1), Wrap(s.wrap, s.n))
         /\ UNCHANGED <<units, top, done, pick>>

(* ---- validity: references have a target of the right kind ---------------- *)
RECURSIVE NodesOf(_)
NodesOf(n) == <<n>> \o Flatten(Map(n.k, NodesOf), 1)
Same(n) == n.t \in {"element", "attribute"} /\ Has(n, "type") /\ Val(n, "name") = Val(n, "type")
Kind(doc, n) == LET c == {i \in 1..Len(doc.k) : Val(doc.k[i], "name") = n /\ ~Same(doc.k[i])}
                IN IF c = {} THEN "" ELSE doc.k[CHOOSE i \in c : TRUE].t
RECURSIVE Reaches(_, _, _, _)
BaseOf(doc, n) ==    \* what the component n derives from, or ""
  LET c == doc.k[CHOOSE i \in 1..Len(doc.k) : Val(doc.k[i], "name") = n /\ ~Same(doc.k[i])]
      bs == SelectSeq(NodesOf(c), LAMBDA m : m.t \in {"restriction", "extension"})
      is == SelectSeq(NodesOf(c), LAMBDA m : m.t \in {"list", "union"})
  IN IF Kind(doc, n) = "element" THEN Val(c, "type")
     ELSE IF is # <<>> /\ (is[1].t = "union" \/ Has(is[1], "itemType"))
     THEN (IF Has(is[1], "itemType") THEN is[1].a["itemType"] ELSE "")
     ELSE IF bs = <<>> THEN "" ELSE Val(bs[Len(bs)], "base")
Reaches(doc, n, target, fuel) ==
  IF n = "" \/ IsBuiltin(n) \/ Kind(doc, n) = "" THEN FALSE
  ELSE n = target \/ (fuel > 0 /\ Reaches(doc, BaseOf(doc, n), target, fuel - 1))
RefsOf(n, doc) ==    \* <<kind wanted, name>>
  (IF n.t \in {"element", "attribute"} /\ Has(n, "type") THEN {<<"type", n.a["type"]>>} ELSE {})
  \cup (IF Has(n, "ref") THEN {<<n.t, n.a["ref"]>>} ELSE {})
  \cup (IF n.t = "list" /\ Has(n, "itemType") THEN {<<"simple", Val(n, "itemType")>>} ELSE {})
  \cup (IF n.t = "union" /\ Has(n, "memberTypes") THEN {<<"member", n.a["memberTypes"][i]>> : i \in 1..Len(n.a["memberTypes"])} ELSE {})
Foreign == {"xml:lang"}
Valid(doc) ==
  LET all == NodesOf(doc) IN
  /\ doc.k # <<>>
  /\ \A i, j \in 1..Len(doc.k) : i < j => (Val(doc.k[i], "name") = "" \/ Val(doc.k[i], "name") # Val(doc.k[j], "name")
                                              \/ Same(doc.k[i]) # Same(doc.k[j])
                                              \/ (Same(doc.k[i]) /\ doc.k[i].t # doc.k[j].t))
  /\ Gram = "C09" => \A i \in 1..Len(all) : \A x, y \in 1..Len(all[i].k) :
       x < y => (Val(all[i].k[x], "name") = "" \/ Val(all[i].k[x], "name") # Val(all[i].k[y], "name"))
  /\ \A i \in 1..Len(all) : \A r \in RefsOf(all[i], doc) :
       \/ IsBuiltin(r[2]) \/ r[2] \in Foreign
       \/ CASE r[1] = "type" -> IF all[i].t = "attribute" THEN Kind(doc, r[2]) = "simpleType"
                                ELSE Kind(doc, r[2]) \in {"simpleType", "complexType"}
            [] r[1] \in {"simple", "member"} -> Kind(doc, r[2]) = "simpleType"
            [] OTHER -> Kind(doc, r[2]) = r[1] \/ \E x \in 1..Len(doc.k) : Same(doc.k[x]) /\ doc.k[x].t = r[1] /\ Val(doc.k[x], "name") = r[2]
  \* bases
  /\ \A i \in 1..Len(all) :
       /\ \A j \in 1..Len(all[i].k) :
            LET w == all[i]  m == all[i].k[j] IN
            (m.t = "extension" /\ ~IsBuiltin(m.a["base"])) =>
               Kind(doc, m.a["base"]) = IF w.t = "simpleContent" THEN "simpleType" ELSE "complexType"
       /\ (all[i].t = "restriction" /\ Has(all[i], "base") /\ ~IsBuiltin(all[i].a["base"])) => Kind(doc, all[i].a["base"]) = "simpleType"
  \* no component derives from, lists or contains itself
  /\ \A i \in 1..Len(doc.k) :
       LET n == Val(doc.k[i], "name") IN
       /\ (n # "" /\ ~Same(doc.k[i])) => ~Reaches(doc, BaseOf(doc, n), n, 6)
       /\ doc.k[i].t \in {"group", "attributeGroup"} =>
            \A j \in 1..Len(NodesOf(doc.k[i])) :
              LET m == NodesOf(doc.k[i])[j] IN
              ~(m.t = doc.k[i].t /\ Has(m, "ref") /\ \E x \in 1..i : Val(doc.k[x], "name") = m.a["ref"])
       /\ doc.k[i].t = "simpleType" =>
            \A j \in 1..Len(NodesOf(doc.k[i])) :
              LET m == NodesOf(doc.k[i])[j] IN
              (m.t = "union" /\ Has(m, "memberTypes")) => \A x \in 1..Len(m.a["memberTypes"]) :
                                 ~Reaches(doc, m.a["memberTypes"][x], n, 6)
  \* an anonymous type doesn't extend the type it is in; a member isn't listed twice
  /\ \A i \in 1..Len(all) :
       LET rs == SelectSeq(NodesOf(all[i]), LAMBDA m : Has(m, "ref") /\ m.t # "element")
       IN all[i].t \in {"complexType", "group", "attributeGroup"} =>
            \A x, y \in 1..Len(rs) : x # y => rs[x].a["ref"] # rs[y].a["ref"]

Finish == /\ ~done /\ Len(stk) = 1 /\ units > 0
          /\ done' = TRUE
          /\ UNCHANGED <<stk, units, top, pick>>
          /\ IF Gram = "C19" THEN PrintT("XV-DOC " \o ToJson(stk[1].n.k[1]))
             ELSE IF Valid(stk[1].n) THEN PrintT("XV-DOC " \o ToJson(stk[1].n)) ELSE TRUE

Next == (\E u \in Units : Add(u)) \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

(* The document under construction stays within its budget, and everything   *)
(* that is open belongs to it.                                               *)
TypeOK == /\ units \in 0..MaxUnits /\ top <= units
          /\ Len(stk) >= 1 /\ stk[1].n.t = "schema"
          /\ done => Len(stk) = 1
=============================================================================
