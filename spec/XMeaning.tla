------------------------------ MODULE XMeaning ------------------------------
(***************************************************************************)
(* What a schema document means: the components it declares, written down  *)
(* declaratively, by recursion over the tree and without any of the stacks *)
(* of the parser.  The parser is right if the components it finds are      *)
(* these.  Types are the names as written; Resolve follows restrictions.   *)
(***************************************************************************)
EXTENDS XParser

RECURSIVE Flatten(_, _)
Flatten(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flatten(ss, i + 1)
Map(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
Kids(n, t) == SelectSeq(n.k, LAMBDA m : m.t = t)
HasKid(n, t) == \E i \in 1..Len(n.k) : n.k[i].t = t
Kid(n, t) == Kids(n, t)[1]

RECURSIVE JoinDocs(_, _, _)
JoinDocs(ns, i, acc) ==
  IF i > Len(ns) THEN acc
  ELSE JoinDocs(ns, i + 1, AddDoc(AddDoc(acc, ns[i].x), JoinDocs(ns[i].k, 1, "")))
DocOf(n) == JoinDocs(Flatten(Map(Kids(n, "annotation"), LAMBDA a : Kids(a, "documentation")), 1), 1, "")

Compositors == {"sequence", "choice", "all"}
(* Structure that belongs to the definition around it.                       *)
Inner == Compositors \cup {"complexContent", "simpleContent", "extension", "restriction"}

(* The nodes of a definition that are particles or attributes of its own,    *)
(* with the plurality of the compositors around them.                        *)
RECURSIVE Own(_, _)
Own(n, pl) ==
  Flatten(Map(n.k, LAMBDA m :
            IF m.t \in Inner
            THEN Own(m, pl \/ (m.t \in Compositors /\ m.t # "all" /\ Plural(m)))
            ELSE <<[n |-> m, pl |-> pl]>>), 1)
OwnOf(n, t) == SelectSeq(Own(n, FALSE), LAMBDA o : o.n.t = t)

(* The type that a simple type defined in place comes to: what it restricts,  *)
(* the item type of a list, any type for a union.                             *)
RECURSIVE InPlace(_)
InPlace(st) ==
  CASE HasKid(st, "list") -> LET l == Kid(st, "list") IN
                             IF HasKid(l, "simpleType") THEN InPlace(Kid(l, "simpleType")) ELSE Val(l, "itemType")
    [] HasKid(st, "restriction") -> LET r == Kid(st, "restriction") IN
                             IF HasKid(r, "simpleType") THEN InPlace(Kid(r, "simpleType")) ELSE Val(r, "base")
    [] OTHER -> "anyType"
(* Name of the type of an element or attribute, as written.                  *)
TypeName(n) ==
  IF Has(n, "ref") THEN n.a["ref"]
  ELSE IF Has(n, "type") THEN n.a["type"]
  ELSE IF HasKid(n, "simpleType") THEN InPlace(Kid(n, "simpleType"))
  ELSE IF HasKid(n, "complexType") THEN NameOf(n)
  ELSE "anyType"

RECURSIVE Merge(_, _, _)
Merge(ms, i, acc) == IF i > Len(ms) THEN acc ELSE Merge(ms, i + 1, AddMember(acc, ms[i]))

ElementOf(o) == [Comp("element", NameOf(o.n)) EXCEPT
                   !.type = TypeName(o.n), !.pl = o.pl \/ Plural(o.n), !.doc = DocOf(o.n)]
AttributeOf(o) == [Comp("attribute", NameOf(o.n)) EXCEPT
                   !.type = TypeName(o.n), !.opt = Val(o.n, "use") # "required", !.doc = DocOf(o.n)]
GroupRefOf(o) == [Comp("group", NameOf(o.n)) EXCEPT
                   !.ref = NameOf(o.n), !.type = NameOf(o.n), !.pl = o.pl \/ Plural(o.n),
                   !.doc = DocOf(o.n)]
AgroupRefOf(o) == [Comp("agroup", NameOf(o.n)) EXCEPT !.ref = NameOf(o.n), !.doc = DocOf(o.n)]

Members(c, n) ==
  [c EXCEPT !.els = Merge(Map(OwnOf(n, "element"), ElementOf), 1, <<>>),
            !.ats = Map(OwnOf(n, "attribute"), AttributeOf),
            !.grs = Merge(Map(OwnOf(n, "group"), GroupRefOf), 1, <<>>),
            !.ags = Map(OwnOf(n, "attributeGroup"), AgroupRefOf),
            !.doc = DocOf(n)]

SimpleComp(n) ==
  LET c == [Comp("simple", n.a["name"]) EXCEPT !.doc = DocOf(n)] IN
  IF HasKid(n, "union")
  THEN LET ms == IF Has(Kid(n, "union"), "memberTypes") THEN Kid(n, "union").a["memberTypes"] ELSE <<>>
       IN [c EXCEPT !.variety = "union", !.mem = {[name |-> ms[i], type |-> ms[i]] : i \in 1..Len(ms)},
                    !.base = IF ms = <<>> THEN "anyType" ELSE ""]    \* all members are defined in place
  ELSE IF HasKid(n, "list")
  THEN [c EXCEPT !.variety = "list", !.base = InPlace(n)]
  ELSE IF HasKid(Kid(n, "restriction"), "simpleType")    \* what restricts a list is a list
  THEN [c EXCEPT !.variety = "list", !.base = Val(Kid(Kid(Kid(n, "restriction"), "simpleType"), "list"), "itemType")]
  ELSE LET r == Kid(n, "restriction")
       IN [c EXCEPT !.variety = "restriction", !.base = Val(r, "base"),
                    !.enum = Map(Kids(r, "enumeration"), LAMBDA e : Val(e, "value"))]

ExtensionBase(n) ==
  LET exts == Flatten(Map(SelectSeq(n.k, LAMBDA m : m.t \in {"simpleContent", "complexContent"}),
                          LAMBDA m : Kids(m, "extension")), 1)
  IN IF exts = <<>> THEN "" ELSE Val(exts[1], "base")

(* The components a node declares, in the order in which they are complete.  *)
RECURSIVE Components(_, _), Anonymous(_)
Anonymous(n) ==    \* the anonymous types below the members of n
  Flatten(Map(OwnOf(n, "element"),
              LAMBDA o : IF HasKid(o.n, "complexType")
                         THEN Components(Kid(o.n, "complexType"), NameOf(o.n)) ELSE <<>>), 1)
Components(n, name) ==
  CASE n.t = "simpleType" -> <<SimpleComp(n)>>
    [] n.t = "complexType" ->
         Anonymous(n) \o <<[Members(Comp("complex", name), n) EXCEPT !.base = ExtensionBase(n)]>>
    [] n.t = "element" ->
         (IF HasKid(n, "complexType") THEN Components(Kid(n, "complexType"), name) ELSE <<>>)
         \o <<ElementOf([n |-> n, pl |-> FALSE])>>
    [] n.t = "attribute" -> <<AttributeOf([n |-> n, pl |-> FALSE])>>
    [] n.t = "group" -> Anonymous(n) \o <<[Members(Comp("group", name), n) EXCEPT !.pl = Plural(n)]>>
    [] n.t = "attributeGroup" -> <<Members(Comp("agroup", name), n)>>
    [] OTHER -> <<>>

Meaning(doc) == Flatten(Map(doc.k, LAMBDA n : Components(n, NameOf(n))), 1)

(* Restrictions are followed to the end; afterwards the components of the    *)
(* parser and those of the meaning can be compared.  What the parser notes    *)
(* of the anonymous members of a union has no meaning for the union.         *)
ResolvedBy(ms, T(_)) ==
  LET Mem(m) == [m EXCEPT !.type = T(@), !.ref = ""]
      Ref(m) == [m EXCEPT !.type = m.name, !.ref = "", !.doc = ""]
      R(c) == [c EXCEPT !.base = IF c.variety = "union" /\ c.mem # {} THEN "" ELSE T(@),
                        !.enum = IF c.variety \in {"union", "list"} THEN <<>> ELSE @, !.type = T(@), !.ref = "",
                        !.mem = {[name |-> m.name, type |-> T(m.type)] : m \in c.mem},
                        !.els = Map(@, Mem), !.ats = Map(@, Mem),
                        !.grs = Map(@, Ref),
                        !.ags = Map(@, Ref)]
  IN Map(ms, R)
Resolved(ms) == ResolvedBy(ms, LAMBDA n : TypeOf(n, ms))
=============================================================================
