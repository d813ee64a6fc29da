-------------------------------- MODULE XGen --------------------------------
(***************************************************************************)
(* The code that belongs to a list of resolved components: the             *)
(* declarations of the generated file, abstracted to                       *)
(*   [id, form, xml, doc, ext, f, vals]                                    *)
(* with fields [r, n, x, b, d, o]: role, identifier, XML name recorded in  *)
(* the code, base type, depth of the collection around it, optionality.    *)
(***************************************************************************)
EXTENDS XMeaning, XNames, SequencesExt

(* Type of language l that the (resolved) type named n is rendered as.       *)
RefTy(l, n) ==
  IF IsBuiltin(n) THEN Builtin[n][l]
  ELSE Ty((IF l = "Go" THEN "*" ELSE "") \o TypeId(l, n), 0)

(* A collection of it; C has no arrays of arrays.                            *)
Coll(l, ty, pl) == IF ~pl THEN ty
                   ELSE Ty(ty.b, IF l = "C" THEN 1 ELSE ty.d + 1)

Field(r, n, x, ty, o) == [r |-> r, n |-> n, x |-> x, b |-> ty.b, d |-> ty.d, o |-> o]

Attr(l, m) ==
  Field(CASE l \in {"Go", "C", "Java"} -> "attr" [] OTHER -> "member",
        AttrId(l, m.name), IF l \in {"Go", "Java", "Rust"} THEN m.name ELSE "",
        RefTy(l, m.type), m.opt)
Elem(l, m, tagged) ==
  Field(IF l = "Java" \/ (l = "Go" /\ tagged) THEN "elem" ELSE "member",
        FieldId(l, m.name),
        IF l \in {"Java", "Rust"} \/ (l = "Go" /\ tagged) THEN m.name ELSE "",
        Coll(l, RefTy(l, m.type), m.pl), FALSE)
GroupRef(l, m) ==
  Field("member", FieldId(l, m.name), IF l = "Rust" THEN m.name ELSE "",
        Coll(l, RefTy(l, m.name), m.pl), FALSE)
AgroupRef(l, m) ==
  Field("member", FieldId(l, m.name), IF l = "Rust" THEN m.name ELSE "",
        Coll(l, RefTy(l, m.name), l = "Rust"), FALSE)

BaseFields(l, c, lists) ==
  LET b == c.base IN
  IF c.base = "" \/ l = "C" THEN <<>>
  ELSE IF l = "TypeScript" /\ b \in lists THEN <<Field("member", "Value", "", RefTy(l, b), FALSE)>>
  ELSE IF IsBuiltin(b)
  THEN <<CASE l = "Go"   -> Field("value", "Value", ",chardata", RefTy(l, b), FALSE)
           [] l = "TypeScript" -> Field("member", "Value", "", RefTy(l, b), FALSE)
           [] l = "Java" -> Field("value", "value", "", RefTy(l, b), FALSE)
           [] l = "Rust" -> Field("member", "value", "$value", RefTy(l, b), FALSE)>>
  ELSE CASE l = "Go"   -> <<Field("base", "", "", RefTy(l, b), FALSE)>>
         [] l = "Rust" -> <<Field("base", FieldId(l, TypeId(l, b)), "", RefTy(l, b), FALSE)>>
         [] OTHER      -> <<>>
Extends(l, c, lists) ==    \* lists: the types that are aliases, no classes in TypeScript
  LET b == c.base IN
  IF l \in {"TypeScript", "Java"} /\ c.base # "" /\ ~IsBuiltin(b) /\ (l = "Java" \/ b \notin lists)
  THEN TypeId(l, b) ELSE ""

(* The members of a union, in the order of their names.                      *)
Ascii == "-.0123456789:ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyzÄÉØÜßäéøüЖж前名"
Rank(ch) == IF \E i \in 1..Len(Ascii) : Ch(Ascii, i) = ch THEN CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = ch ELSE 100
RECURSIVE Before(_, _, _)
Before(a, b, i) ==
  IF i > Len(a) THEN i <= Len(b)
  ELSE i <= Len(b) /\ (Rank(Ch(a, i)) < Rank(Ch(b, i)) \/ (Ch(a, i) = Ch(b, i) /\ Before(a, b, i + 1)))
InOrder(mem) == SortSeq(SetToSeq(mem), LAMBDA x, y : Before(x.name, y.name, 1))

(* Go records the XML name of a structure that is called otherwise.          *)
XmlName(l, id, name) ==
  IF l = "Go" /\ id # name THEN <<Field("name", "XMLName", name, Ty("xml.Name", 0), FALSE)>> ELSE <<>>

(* All fields but attributes of TypeScript and Rust enumerations' members.   *)
TSNumber(v) == v = "" \/ Ch(v, 1) \in (Digits \cup {"-", "+", "."}) \/ v \in {"Infinity", "NaN"}
(* A number as TypeScript writes it: without zeros before its digits.        *)
RECURSIVE NoZeros(_)
NoZeros(v) == IF Len(v) > 1 /\ Ch(v, 1) = "0" /\ Ch(v, 2) \in Digits THEN NoZeros(SubSeq(v, 2, Len(v))) ELSE v
TSLiteral(v) ==
  CASE v \in {"INF", "+INF"} -> "Infinity" [] v = "-INF" -> "-Infinity"
    [] v # "" /\ Ch(v, 1) \in {"-", "+"} -> Ch(v, 1) \o NoZeros(SubSeq(v, 2, Len(v)))
    [] OTHER -> NoZeros(v)
EnumName(ty, v) == IF ty = "string" /\ ~TSNumber(v) THEN v ELSE "Enum" \o v

(* Members of one name are told apart by numbers.  The attributes of Rust    *)
(* have names like its elements'.                                            *)
RECURSIVE Numbered_(_, _, _), Distinguished_(_, _, _)
Numbered_(n, k, names) == IF n \o ToString(k) \in names THEN Numbered_(n, k + 1, names) ELSE n \o ToString(k)
Distinguished_(fs, i, names) ==
  IF i > Len(fs) THEN fs
  ELSE IF \A j \in 1..(i - 1) : fs[j].n # fs[i].n THEN Distinguished_(fs, i + 1, names)
  ELSE LET n == Numbered_(fs[i].n, 2, names)
       IN [Distinguished_(fs, i + 1, names \cup {n}) EXCEPT ![i].n = n]
Distinguished(fs) == Distinguished_(fs, 1, {fs[i].n : i \in 1..Len(fs)})

DeclOf(l, c, id, lists) ==
  LET D == [id |-> id, form |-> "struct", xml |-> "", doc |-> c.doc, ext |-> "", f |-> <<>>, vals |-> <<>>]
      A == Map(c.ats, LAMBDA m : Attr(l, m))
      G == Map(c.grs, LAMBDA m : GroupRef(l, m))
      AG == Map(c.ags, LAMBDA m : AgroupRef(l, m))
      E(t) == Map(c.els, LAMBDA m : Elem(l, m, t))
      (* The one type of a simple type, a global element or attribute.        *)
      One(ty) ==
        IF l \in {"Java", "Rust"}
        THEN <<Field("member", FieldId(l, c.name), IF l = "Rust" THEN c.name ELSE "", ty, FALSE)>>
        ELSE <<Field("member", "", "", ty, FALSE)>>
      Alias(ty) == [D EXCEPT !.form = IF l = "Rust" THEN "struct" ELSE "alias",
                             !.xml = IF l = "Java" THEN c.name ELSE "", !.f = One(ty)]
  IN CASE c.k = "simple" /\ c.variety = "list" -> Alias(Coll(l, RefTy(l, c.base), TRUE))
       [] c.k = "simple" /\ c.variety = "union" /\ c.mem = {} -> Alias(RefTy(l, "anyType"))
       [] c.k = "simple" /\ c.variety = "union" ->
            [D EXCEPT !.form = "union",
                      !.f = XmlName(l, id, c.name) \o
                            Map(InOrder(c.mem),
                                LAMBDA m : Field("member", FieldId(l, m.name),
                                                 IF l = "Rust" THEN m.name ELSE "",
                                                 RefTy(l, m.type), FALSE))]
       [] c.k = "simple" /\ c.variety = "restriction" ->
            LET ty == RefTy(l, c.base) IN
            IF l = "TypeScript" /\ c.enum # <<>>
            THEN [D EXCEPT !.form = "enum",
                           !.vals = Map(c.enum, LAMBDA v : [n |-> EnumName(IF ty.d = 0 THEN ty.b ELSE "", v),
                                                           v |-> IF ty.d = 0 /\ ty.b = "number" THEN TSLiteral(v) ELSE v])]
            ELSE Alias(ty)
       [] c.k \in {"element", "attribute"} -> Alias(Coll(l, RefTy(l, c.type), c.pl))
       [] c.k = "complex" ->
            [D EXCEPT !.ext = Extends(l, c, lists),
                      !.f = XmlName(l, id, c.name) \o AG \o A \o G \o E(TRUE) \o BaseFields(l, c, lists)]
       [] c.k = "group" -> [D EXCEPT !.f = XmlName(l, id, c.name) \o E(FALSE) \o G]
       [] c.k = "agroup" -> [D EXCEPT !.f = XmlName(l, id, c.name) \o AG \o A]

(* A name is declared once: a global element shares the declaration of its   *)
(* anonymous type, and a global element or attribute that of a named type it *)
(* has and is called as.                                                     *)
Stands(t) == IF t.k = "simple" /\ t.variety = "restriction" THEN t.base ELSE t.name
Rendered(ms) == SelectSeq(TLCEval([i \in 1..Len(ms) |-> [i |-> i, c |-> ms[i]]]),
                          LAMBDA r : /\ \A j \in 1..(r.i - 1) : ms[j].name = r.c.name =>
                                          r.c.k \in {"simple", "complex"} /\ ms[j].k \in {"element", "attribute"}
                                     /\ r.c.k \in {"element", "attribute"} =>
                                          \A j \in 1..Len(ms) :
                                            ~(/\ ms[j].name = r.c.name /\ ms[j].k \in {"simple", "complex"}
                                              /\ r.c.type = Stands(ms[j])))

Code(l, ms) ==    \* i: index of the component
  LET rs  == Rendered(ms)
      ids == Unique(Map(rs, LAMBDA r : TypeId(l, r.c.name)))
      lists == {ms[i].name : i \in {j \in 1..Len(ms) : ms[j].k = "simple" /\ (ms[j].variety = "list" \/ (ms[j].variety = "union" /\ ms[j].mem = {}))}}
      Once(d) == IF l = "Rust" /\ d.form # "alias" THEN [d EXCEPT !.f = Distinguished(@)] ELSE d
  IN TLCEval([i \in 1..Len(rs) |-> [d |-> Once(DeclOf(l, rs[i].c, ids[i], lists)), c |-> rs[i].c, i |-> rs[i].i]])
=============================================================================
