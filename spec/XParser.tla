------------------------------- MODULE XParser -------------------------------
(***************************************************************************)
(* The parser as a state machine: one step per event of the XML reader,    *)
(* structured like the On<Tag>/End<Tag> handlers, with their stacks.       *)
(* Step is total: it is defined for every event in every reachable state,  *)
(* whatever the vocabulary of the document.                                *)
(***************************************************************************)
EXTENDS XDoc, XBuiltins, TLC

Top(s)      == s[Len(s)]
Pop(s)      == SubSeq(s, 1, Len(s) - 1)
SetTop(s, v) == [s EXCEPT ![Len(s)] = v]

Init0 == [simple |-> <<>>, complex |-> <<>>, element |-> <<>>, attr |-> <<>>,
          group |-> <<>>, agroup |-> <<>>, choice |-> <<>>, owner |-> <<>>,
          ingroup |-> 0, inunion |-> 0,
          open |-> <<>>, ann |-> 0, text |-> "",
          tree |-> <<>>]

(* One step up the chain of derivation of the type, attribute or element     *)
(* called n, as far as it is known.                                          *)
DirectBase(n, tree) ==
  LET hits == {i \in 1..Len(tree) :
                 /\ tree[i].name = n
                 /\ \/ tree[i].k = "simple" /\ tree[i].variety = "restriction"
                    \* an element that is called as its type says nothing of it
                    \/ tree[i].k \in {"element", "attribute"} /\ tree[i].type # n}
  IN IF hits = {} THEN n
     ELSE LET c == tree[CHOOSE i \in hits : \A j \in hits : i <= j]
          IN IF c.k = "simple" THEN c.base ELSE c.type
RECURSIVE Chase_(_, _, _)
Chase_(n, tree, fuel) ==
  IF fuel = 0 THEN n
  ELSE LET b == DirectBase(n, tree) IN IF b = n THEN n ELSE Chase_(b, tree, fuel - 1)
Chase(n, tree) == Chase_(n, tree, Len(tree))

TypeOf(n, tree) == IF IsBuiltin(n) THEN n ELSE Chase(n, tree)

Inherit(st, pl) == pl \/ (Len(st.choice) > 0 /\ Top(st.choice))

(* ---- start of an element ------------------------------------------------ *)
OnSimpleType(st, ev) ==
  LET s1 == IF st.simple = <<>>
            THEN <<[Comp("simple", "") EXCEPT !.variety = "restriction"]>> ELSE st.simple
  IN [st EXCEPT !.simple = IF Has(ev, "name") THEN SetTop(s1, [Top(s1) EXCEPT !.name = ev.a["name"]])
                           ELSE s1]

OnRestriction(st, ev) ==
  IF ~Has(ev, "base") \/ st.simple = <<>> THEN st
  ELSE LET s == Top(st.simple)
       IN [st EXCEPT !.simple = SetTop(@, [s EXCEPT !.base = TypeOf(ev.a["base"], st.tree),
                                          !.name = IF @ = "" THEN ev.a["base"] ELSE @])]

OnExtension(st, ev) ==
  IF ~Has(ev, "base") \/ st.complex = <<>> THEN st
  ELSE LET c == Top(st.complex)
       IN [st EXCEPT !.complex = SetTop(@, [c EXCEPT !.base = TypeOf(ev.a["base"], st.tree),
                                           !.name = IF @ = "" THEN ev.a["base"] ELSE @])]

OnList(st, ev) ==
  IF st.simple = <<>> \/ st.inunion > 0 THEN st
  ELSE LET s == Top(st.simple)
       IN [st EXCEPT !.simple = SetTop(@, [s EXCEPT !.variety = "list",
             !.base = IF Has(ev, "itemType") THEN TypeOf(ev.a["itemType"], st.tree) ELSE @])]

OnUnion(st, ev) ==
  LET st1 == [st EXCEPT !.inunion = @ + 1] IN
  IF st.simple = <<>> \/ st.inunion > 0 THEN st1
  ELSE LET s == Top(st.simple)
           ms == IF Has(ev, "memberTypes") THEN ev.a["memberTypes"] ELSE <<>>
       IN [st1 EXCEPT !.simple = SetTop(@, [s EXCEPT !.variety = "union",
             !.mem = {[name |-> ms[i], type |-> TypeOf(ms[i], st.tree)] : i \in 1..Len(ms)}])]

OnEnumeration(st, ev) ==
  IF ~Has(ev, "value") \/ st.simple = <<>> THEN st
  ELSE [st EXCEPT !.simple = SetTop(@, [Top(@) EXCEPT !.enum = Append(@, ev.a["value"])])]

NameOf(ev) == IF Has(ev, "ref") THEN ev.a["ref"] ELSE Val(ev, "name")

OnAttribute(st, ev) ==
  LET a == [Comp("attribute", NameOf(ev)) EXCEPT
              !.type = IF Has(ev, "ref") THEN TypeOf(ev.a["ref"], st.tree)
                       ELSE IF Has(ev, "type") THEN TypeOf(ev.a["type"], st.tree) ELSE "",
              !.opt = Val(ev, "use") # "required"]
  IN [st EXCEPT !.attr = Append(@, a)]

OnElement(st, ev) ==
  LET e == [Comp("element", NameOf(ev)) EXCEPT
              !.type = IF Has(ev, "ref") THEN TypeOf(ev.a["ref"], st.tree)
                       ELSE IF Has(ev, "type") THEN TypeOf(ev.a["type"], st.tree) ELSE "",
              !.pl = Inherit(st, Plural(ev))]
  IN [st EXCEPT !.element = Append(@, e)]

OnComplexType(st, ev) ==
  LET own == ~Has(ev, "name") /\ st.element # <<>>
      c   == Comp("complex", IF own THEN Top(st.element).name ELSE Val(ev, "name"))
  IN [st EXCEPT !.complex = Append(@, c),
                !.choice  = Append(@, FALSE),     \* plurality stops at a type
                !.owner   = Append(@, IF own THEN <<[Top(st.element) EXCEPT !.type = c.name]>> ELSE <<>>),
                !.element = IF own THEN Pop(@) ELSE @]

OnParticle(st, ev) == [st EXCEPT !.choice = Append(@, Inherit(st, Plural(ev)))]

OnGroup(st, ev) ==
  LET g == [Comp("group", NameOf(ev)) EXCEPT
              !.ref = IF Has(ev, "ref") THEN TypeOf(ev.a["ref"], st.tree) ELSE "",
              !.type = IF Has(ev, "ref") THEN TypeOf(ev.a["ref"], st.tree) ELSE "",
              !.pl = Inherit(st, Plural(ev))]
  IN IF st.complex # <<>>
     THEN [st EXCEPT !.complex = SetTop(@, [Top(@) EXCEPT !.grs = AddMember(@, g)])]
     ELSE IF st.ingroup = 0 THEN [st EXCEPT !.group = Append(@, g), !.ingroup = 1]
     ELSE [st EXCEPT !.ingroup = @ + 1,
                     !.group = SetTop(@, [Top(@) EXCEPT !.grs = AddMember(@, g)])]

OnAttributeGroup(st, ev) ==
  LET g == [Comp("agroup", NameOf(ev)) EXCEPT
              !.ref = IF Has(ev, "ref") THEN TypeOf(ev.a["ref"], st.tree) ELSE ""]
  IN IF st.complex # <<>>
     THEN [st EXCEPT !.complex = SetTop(@, [Top(@) EXCEPT !.ags = Append(@, g)])]
     ELSE [st EXCEPT !.agroup = Append(@, g)]

On(st, ev) ==
  CASE ev.t = "simpleType"     -> OnSimpleType(st, ev)
    [] ev.t = "restriction"    -> OnRestriction(st, ev)
    [] ev.t = "extension"      -> OnExtension(st, ev)
    [] ev.t = "list"           -> OnList(st, ev)
    [] ev.t = "union"          -> OnUnion(st, ev)
    [] ev.t = "enumeration"    -> OnEnumeration(st, ev)
    [] ev.t = "attribute"      -> OnAttribute(st, ev)
    [] ev.t = "element"        -> OnElement(st, ev)
    [] ev.t = "complexType"    -> OnComplexType(st, ev)
    [] ev.t \in {"choice", "sequence"} -> OnParticle(st, ev)
    [] ev.t = "group"          -> OnGroup(st, ev)
    [] ev.t = "attributeGroup" -> OnAttributeGroup(st, ev)
    [] OTHER                   -> st

(* ---- end of an element -------------------------------------------------- *)
(* Facets of the inline type of an element settle its type at once.          *)
ElementFacets == {"fractionDigits", "length", "maxExclusive", "maxInclusive", "maxLength",
                  "minExclusive", "minInclusive", "minLength", "totalDigits", "whiteSpace"}

EndElementFacet(st) ==
  IF st.simple # <<>> /\ st.element # <<>>
  THEN [st EXCEPT !.element = SetTop(@, [Top(@) EXCEPT !.type = Top(st.simple).base]),
                  !.simple = Pop(@)]
  ELSE st
EndAttrFacet(st) ==
  IF st.attr # <<>> /\ st.simple # <<>>
  THEN [st EXCEPT !.attr = SetTop(@, [Top(@) EXCEPT !.type = Top(st.simple).base]),
                  !.simple = Pop(@)]
  ELSE st
EndEnumeration(st) ==
  LET s1 == IF st.attr # <<>> /\ st.simple # <<>>
            THEN [st EXCEPT !.attr = SetTop(@, [Top(@) EXCEPT !.type = Top(st.simple).base])] ELSE st
  IN IF s1.simple # <<>> /\ s1.element # <<>>
     THEN [s1 EXCEPT !.element = SetTop(@, [Top(@) EXCEPT !.type = Top(s1.simple).base])] ELSE s1

EndSimpleType(st) ==
  IF st.simple = <<>> \/ st.inunion > 0 THEN st
  ELSE LET t == Top(st.simple)
           s == IF t.variety = "union" /\ t.mem = {} THEN [t EXCEPT !.base = "anyType"] ELSE t
           st1 == [st EXCEPT !.simple = Pop(@)]
       IN IF st.attr # <<>> THEN [st1 EXCEPT !.attr = SetTop(@, [Top(@) EXCEPT !.type = s.base])]
          ELSE IF st.element # <<>>
          THEN [st1 EXCEPT !.element = SetTop(@, [Top(@) EXCEPT !.type = s.base])]
          ELSE IF st.complex # <<>> THEN st1
          ELSE [st1 EXCEPT !.tree = Append(@, s)]

EndAttribute(st) ==
  IF st.attr = <<>> THEN st
  ELSE LET a == [Top(st.attr) EXCEPT !.type = IF @ = "" THEN "anyType" ELSE @]
           st1 == [st EXCEPT !.attr = Pop(@)]
       IN IF st.agroup # <<>>
          THEN [st1 EXCEPT !.agroup = SetTop(@, [Top(@) EXCEPT !.ats = Append(@, a)])]
          ELSE IF st.complex # <<>>
          THEN [st1 EXCEPT !.complex = SetTop(@, [Top(@) EXCEPT !.ats = Append(@, a)])]
          ELSE [st1 EXCEPT !.tree = Append(@, a)]

EndElement(st) ==
  IF st.element = <<>> THEN st
  ELSE LET e == [Top(st.element) EXCEPT !.type = IF @ = "" THEN "anyType" ELSE @]
           st1 == [st EXCEPT !.element = Pop(@)]
       IN IF st.complex # <<>>
          THEN [st1 EXCEPT !.complex = SetTop(@, [Top(@) EXCEPT !.els = AddMember(@, e)])]
          ELSE IF st.ingroup > 0
          THEN (IF st.group = <<>> THEN st1
                ELSE [st1 EXCEPT !.group = SetTop(@, [Top(@) EXCEPT !.els = AddMember(@, e)])])
          ELSE [st1 EXCEPT !.tree = Append(@, e)]

EndComplexType(st) ==
  IF st.complex = <<>> THEN st
  ELSE [st EXCEPT !.tree = Append(@, Top(st.complex)), !.complex = Pop(@),
                  !.choice = IF @ = <<>> THEN @ ELSE Pop(@),
                  !.owner = Pop(@), !.element = @ \o Top(st.owner)]

EndGroup(st) ==
  IF st.complex # <<>> \/ st.ingroup = 0 THEN st
  ELSE IF st.ingroup = 1
  THEN [st EXCEPT !.ingroup = 0, !.tree = Append(@, Top(st.group)), !.group = Pop(@)]
  ELSE [st EXCEPT !.ingroup = @ - 1]

EndAttributeGroup(st) ==
  IF st.agroup = <<>> THEN st
  ELSE LET g == Top(st.agroup)  rest == Pop(st.agroup)
       IN IF rest # <<>> THEN [st EXCEPT !.agroup = SetTop(rest, [Top(rest) EXCEPT !.ags = Append(@, g)])]
          ELSE [st EXCEPT !.agroup = rest, !.tree = Append(@, g)]

End(st, ev) ==
  CASE ev.t = "simpleType"     -> EndSimpleType(st)
    [] ev.t \in {"restriction", "extension"} -> EndAttrFacet(st)
    [] ev.t = "pattern"        -> EndElementFacet(EndAttrFacet(st))
    [] ev.t \in ElementFacets  -> EndElementFacet(st)
    [] ev.t = "enumeration"    -> EndEnumeration(st)
    [] ev.t = "union"          -> [st EXCEPT !.inunion = IF @ = 0 THEN 0 ELSE @ - 1]
    [] ev.t = "attribute"      -> EndAttribute(st)
    [] ev.t = "element"        -> EndElement(st)
    [] ev.t = "complexType"    -> EndComplexType(st)
    [] ev.t \in {"choice", "sequence"} -> [st EXCEPT !.choice = IF @ = <<>> THEN @ ELSE Pop(@)]
    [] ev.t = "group"          -> EndGroup(st)
    [] ev.t = "attributeGroup" -> EndAttributeGroup(st)
    [] OTHER                   -> st

(* ---- documentation ------------------------------------------------------ *)
Describe(st, text) ==
  LET o == IF st.open = <<>> THEN "" ELSE Top(st.open)
      D(s) == SetTop(s, [Top(s) EXCEPT !.doc = AddDoc(@, text)])
  IN CASE o = "attributeGroup" /\ st.agroup # <<>> -> [st EXCEPT !.agroup = D(@)]
       [] o = "attribute" /\ st.attr # <<>>        -> [st EXCEPT !.attr = D(@)]
       [] o = "element" /\ st.element # <<>>       -> [st EXCEPT !.element = D(@)]
       [] o = "simpleType" /\ st.simple # <<>> /\ st.inunion = 0 /\ Top(st.simple).variety # "list"
                                                   -> [st EXCEPT !.simple = D(@)]
       [] o = "complexType" /\ st.complex # <<>>   -> [st EXCEPT !.complex = D(@)]
       [] o = "group" /\ st.ingroup = 1 /\ st.complex = <<>> /\ st.group # <<>>
                                                   -> [st EXCEPT !.group = D(@)]
       [] OTHER                                    -> st

(* ---- one event ---------------------------------------------------------- *)
Step(st, ev) ==
  CASE ev.e = "s" ->
         IF st.ann > 0 \/ ev.t = "annotation"
         THEN [st EXCEPT !.ann = @ + 1, !.text = IF st.ann = 1 THEN "" ELSE @]
         ELSE LET s1 == [st EXCEPT !.open = Append(@, ev.t)]    \* the types within a union aren't kept
              IN IF st.inunion > 0 /\ ev.t # "union" THEN s1 ELSE On(s1, ev)
    [] ev.e = "e" ->
         IF st.ann > 0
         THEN IF st.ann = 2 /\ ev.t = "documentation"
              THEN [Describe(st, st.text) EXCEPT !.ann = 1]
              ELSE [st EXCEPT !.ann = @ - 1]
         ELSE LET s1 == [st EXCEPT !.open = IF @ = <<>> THEN @ ELSE Pop(@)]
              IN IF st.inunion > 0 /\ ev.t # "union" THEN s1 ELSE End(s1, ev)
    [] ev.e = "t" -> IF st.ann > 0 THEN [st EXCEPT !.text = AddDoc(@, ev.x)] ELSE st

RECURSIVE Run(_, _, _)
Run(st, evs, i) == IF i > Len(evs) THEN st ELSE Run(Step(st, evs[i]), evs, i + 1)
Parse(doc) == Run(Init0, Events(doc), 1).tree

(* Stack discipline, to hold after every event of a well-formed document.    *)
Balanced(st) ==
  /\ Len(st.owner) = Len(st.complex)
  /\ Len(st.choice) >= Len(st.complex)
  /\ st.ingroup = 0 <=> st.group = <<>>
  /\ Len(st.simple) <= 1
Settled(st) ==
  /\ st.simple = <<>> /\ st.complex = <<>> /\ st.element = <<>> /\ st.attr = <<>>
  /\ st.group = <<>> /\ st.agroup = <<>> /\ st.choice = <<>> /\ st.owner = <<>>
  /\ st.ingroup = 0 /\ st.inunion = 0 /\ st.open = <<>> /\ st.ann = 0
=============================================================================
