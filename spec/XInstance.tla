------------------------------ MODULE XInstance ------------------------------
(***************************************************************************)
(* Instance documents: which XML documents conform to an element of a      *)
(* schema, and what is left of them when the Go code for the schema reads   *)
(* and writes them (C20).                                                   *)
(*   XV_DOCS  schema documents; XV_N  instances per element                 *)
(* An instance is a tree of [n: name, a: attributes, k: children, x: text]. *)
(* Three descriptions are checked against one another: Tree makes           *)
(* instances, Conforms says what is one, and Codec is how encoding/xml      *)
(* takes a tree through the declarations of XGen and back.  The instances   *)
(* are printed and go through the real code of the real schemas.            *)
(***************************************************************************)
EXTENDS XGen, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.XV_DOCS)
Count == CHOOSE i \in 0..100 : ToString(i) = IOEnv.XV_N

Range_(s) == {s[i] : i \in 1..Len(s)}

(* ---- values --------------------------------------------------------------*)
Texts == <<"x", " a  <b> & \"c\" 'd' ", "é漢", "]]>", "\tz\n", "0", "-1.50", "true">>
Ints == <<"7", "-12", "0", "2147483647", "-2147483648", "1">>
ValuesOf(b) ==
  CASE b \in {"string", "anyType", "normalizedString", "token"} ->
         IF b = "string" \/ b = "anyType" THEN Texts
         ELSE IF b = "token" THEN <<"a b", "x", "1.0">> ELSE <<" a b ", "x", "<&>">>
    [] b \in {"int", "integer", "long"} -> (IF b = "int" THEN <<>> ELSE <<"9223372036854775807", "-9223372036854775808">>) \o Ints
    [] b = "short" -> <<"32767", "-32768", "0", "5">>
    [] b = "byte"  -> <<"127", "-128", "0", "5">>
    [] b \in {"nonNegativeInteger", "positiveInteger"} -> <<"9223372036854775807", "1", "17">>
    [] b \in {"nonPositiveInteger", "negativeInteger"} -> <<"-9223372036854775808", "-1", "-17">>
    [] b = "unsignedByte"  -> <<"255", "0", "128">>
    [] b = "unsignedShort" -> <<"65535", "0", "32768">>
    [] b = "unsignedInt"   -> <<"4294967295", "0", "2147483648">>
    [] b = "unsignedLong"  -> <<"18446744073709551615", "0", "9223372036854775808">>
    [] b \in {"decimal", "double"} -> <<"1.5", "-0.25", "0", "123456.789", "0.1">>
    [] b = "float"   -> <<"1.5", "-0.25", "0", "0.1", "1.0009766">>
    [] b = "boolean" -> <<"true", "false">>
    [] b = "date" -> <<"2024-02-29", "-0044-03-15Z">>
    [] b = "dateTime" -> <<"2024-02-29T23:59:59.5+01:00", "1999-12-31T00:00:00">>
    [] b = "duration" -> <<"P1Y2M3DT4H5M6.7S", "-P3D">>
    [] b = "gDay" -> <<"---31">> [] b = "gMonth" -> <<"--02">> [] b = "gMonthDay" -> <<"--02-29">>
    [] b = "gYear" -> <<"2024", "-0044">> [] b = "gYearMonth" -> <<"2024-02">>
    [] b = "anyURI" -> <<"http://a.b/c?d=e&f=g#h", "urn:x">>
    [] b = "language" -> <<"de-CH", "en">> [] b = "xml:lang" -> <<"de-CH", "en">>
    [] b = "xml:space" -> <<"preserve", "default">> [] b = "xml:base" -> <<"http://a.b/">>
    [] b = "xml:id" -> <<"i1">>
    [] b = "base64Binary" -> <<"YWJj", "/+8=">> [] b = "hexBinary" -> <<"0FB7">>
    [] b \in {"ID", "IDREF", "NCName", "ENTITY"} -> <<"x1", "a-b.c_d">>
    [] b \in {"Name", "NOTATION"} -> <<"n1", "a-b">>
    [] b = "NMTOKEN" -> <<"1a", "-b:c">>
    [] b \in {"NMTOKENS", "IDREFS", "ENTITIES"} -> <<"a b c", "x">>
    [] OTHER -> <<>>        \* time, QName: nothing the Go types can take and give back

(* The values of a simple type; none when it's one that Go can't represent:  *)
(* unions, lists of anything but strings.                                    *)
Tops(d, t, name) == SelectSeq(d.k, LAMBDA n : n.t = t /\ Val(n, "name") = name)
RECURSIVE SimpleValues(_, _), RestrValues(_, _), GoString(_, _)
GoString(d, b) ==    \* is the type a string in Go?
  IF IsBuiltin(b) THEN Builtin[b].Go = Ty("string", 0)
  ELSE LET s == Tops(d, "simpleType", b)
       IN s # <<>> /\ HasKid(s[1], "restriction") /\ GoString(d, Kid(s[1], "restriction").a["base"])
RestrValues(d, s) ==    \* s: a simpleType node
  IF ~HasKid(s, "restriction") THEN <<>>
  ELSE LET r == Kid(s, "restriction")
           base == SimpleValues(d, Val(r, "base"))
           facets == SelectSeq(r.k, LAMBDA f : f.t \notin {"enumeration", "annotation"})
           enum == Kids(r, "enumeration")
       IN IF base = <<>> \/ facets # <<>> THEN <<>>
          ELSE IF enum = <<>> THEN base
          ELSE IF GoString(d, Val(r, "base")) THEN Map(enum, LAMBDA e : Val(e, "value"))
          ELSE LET vs == Map(enum, LAMBDA e : Val(e, "value"))
               IN SelectSeq(base, LAMBDA v : v \in Range_(vs))
SimpleValues(d, name) ==
  IF IsBuiltin(name) THEN ValuesOf(name)
  ELSE LET s == Tops(d, "simpleType", name) IN
       IF s = <<>> THEN <<>>
       ELSE IF HasKid(s[1], "list")
       THEN IF GoString(d, Val(Kid(s[1], "list"), "itemType")) THEN <<"a b", "c", "d e f">> ELSE <<>>
       ELSE RestrValues(d, s[1])

RECURSIVE Primitive(_, _)
Primitive(d, name) ==    \* what a chain of restrictions ends with
  LET s == Tops(d, "simpleType", name) IN
  IF IsBuiltin(name) \/ s = <<>> \/ ~HasKid(s[1], "restriction") THEN name
  ELSE Primitive(d, Kid(s[1], "restriction").a["base"])

(* ---- what the nodes of a schema are -------------------------------------*)
IsElementRef(d, e) == Has(e, "ref")
Declared(d, e) ==    \* the declaration of an element or attribute
  IF ~Has(e, "ref") THEN e
  ELSE IF Tops(d, e.t, e.a["ref"]) # <<>> THEN Tops(d, e.t, e.a["ref"])[1]
  ELSE [e EXCEPT !.a = [name |-> e.a["ref"], type |-> e.a["ref"]]]     \* xml:lang...
ComplexOf(d, g) ==    \* the complex type of a declaration: a sequence of at most one
  IF HasKid(g, "complexType") THEN <<Kid(g, "complexType")>>
  ELSE IF Has(g, "type") THEN Tops(d, "complexType", g.a["type"]) ELSE <<>>
ValuesOfDecl(d, g) ==
  IF HasKid(g, "simpleType") THEN RestrValues(d, Kid(g, "simpleType"))
  ELSE IF Has(g, "type") THEN SimpleValues(d, g.a["type"]) ELSE ValuesOf("anyType")

ExtOf(c) ==    \* the extension a complex type consists of
  LET exts == Flatten(Map(SelectSeq(c.k, LAMBDA m : m.t \in {"simpleContent", "complexContent"}),
                          LAMBDA m : Kids(m, "extension")), 1)
  IN exts
BodyOf(c) == IF ExtOf(c) = <<>> THEN c ELSE ExtOf(c)[1]
BaseName(c) == IF ExtOf(c) = <<>> THEN "" ELSE Val(ExtOf(c)[1], "base")

RECURSIVE Chain(_, _, _)    \* a complex type and its complex bases, the innermost base first
Chain(d, c, seen) ==
  LET b == BaseName(c) IN
  (IF b # "" /\ b \notin seen /\ Tops(d, "complexType", b) # <<>>
   THEN Chain(d, Tops(d, "complexType", b)[1], seen \cup {b}) ELSE <<>>) \o <<c>>
BaseValues(d, c) ==    \* values of the text: <<FALSE>> without, <<TRUE, ...>> with
  LET b == BaseName(Chain(d, c, {})[1]) IN
  IF b = "" THEN [text |-> FALSE, ok |-> TRUE, vals |-> <<>>]
  ELSE LET vs == IF IsBuiltin(b) \/ Tops(d, "simpleType", b) # <<>> THEN SimpleValues(d, b) ELSE <<>>
           go == LET t == Primitive(d, b) IN IsBuiltin(t) /\ Builtin[t].Go.d = 0
       IN [text |-> TRUE, ok |-> vs # <<>> /\ go, vals |-> vs]

AttributesOf(d, c) == Flatten(Map(Chain(d, c, {}), LAMBDA x : Kids(BodyOf(x), "attribute")), 1)
ParticlesOf(d, c) ==
  Flatten(Map(Chain(d, c, {}), LAMBDA x : SelectSeq(BodyOf(x).k, LAMBDA m : m.t \in Compositors \cup {"group"})), 1)
RECURSIVE ElementsIn(_, _)
ElementsIn(p, pl) ==    \* the elements of a particle, and whether they are repeatable
  IF p.t = "element" THEN <<[e |-> p, pl |-> pl \/ Plural(p)]>>
  ELSE Flatten(Map(SelectSeq(p.k, LAMBDA m : m.t \in Compositors \cup {"element"}),
                   LAMBDA m : ElementsIn(m, pl \/ (p.t # "all" /\ Plural(p)))), 1)
ElementsOf(d, c) == Flatten(Map(ParticlesOf(d, c), LAMBDA p : ElementsIn(p, FALSE)), 1)
Distinct(s) == Cardinality(Range_(s)) = Len(s)

(* ---- the schemas this is about ------------------------------------------ *)
(* Types called as in Go, without groups, wildcards, restrictions of complex  *)
(* types; values that Go represents; repeated unsigned bytes are a byte       *)
(* sequence in Go.                                                            *)
RECURSIVE Plain(_)
Plain(p) == p.t \notin {"group", "attributeGroup", "any", "anyAttribute"}
            /\ \A i \in 1..Len(p.k) : (p.k[i].t \in Inner \cup {"group", "attributeGroup", "any", "anyAttribute"} => Plain(p.k[i]))
NoRestriction(c) == \A i \in 1..Len(c.k) : c.k[i].t \in {"simpleContent", "complexContent"} => ~HasKid(c.k[i], "restriction")
NamedWell(n) == TypeId("Go", n) = n
InScopeType(d, c) ==
  /\ Plain(c) /\ NoRestriction(c)
  /\ \A x \in Range_(Chain(d, c, {})) : Plain(x) /\ NoRestriction(x) /\ (x # c => NamedWell(x.a["name"]))
  /\ Val(c, "name") = "" \/ NamedWell(c.a["name"])
  /\ BaseName(Chain(d, c, {})[1]) = "" \/ BaseValues(d, c).ok
  /\ Distinct(Map(AttributesOf(d, c), LAMBDA a : NameOf(a)))
  /\ Distinct(Map(ElementsOf(d, c), LAMBDA e : NameOf(e.e)))
  /\ \A a \in Range_(AttributesOf(d, c)) : ValuesOfDecl(d, Declared(d, a)) # <<>>
  /\ \A e \in Range_(ElementsOf(d, c)) :
       LET g == Declared(d, e.e) IN
       ComplexOf(d, g) = <<>> => ValuesOfDecl(d, g) # <<>> /\ ~(e.pl /\ Primitive(d, TypeName(g)) = "unsignedByte")

(* An element called as the type that is extended clashes with it (a known    *)
(* finding of C11).                                                           *)
RECURSIVE Below(_)
Below(m) == <<m>> \o Flatten(Map(m.k, Below), 1)
Compiles(d) ==
  LET cs == SelectSeq(Flatten(Map(d.k, Below), 1), LAMBDA m : m.t = "complexType")
  IN \A i \in 1..Len(cs) : \A e \in Range_(ElementsOf(d, cs[i])) : \A x \in Range_(Chain(d, cs[i], {})) :
       BaseName(x) # "" => FieldId("Go", NameOf(e.e)) # TypeId("Go", BaseName(x))

(* A document in a state has the names of the types in scope.                 *)
WithScope(d) ==
  LET cs == Kids(d, "complexType")
  IN TLCEval([k |-> d.k, compiles |-> Compiles(d), ok |-> {cs[i].a["name"] : i \in {j \in 1..Len(cs) : InScopeType(d, cs[j])}}])
InScope(d, c) == IF Has(c, "name") THEN c.a["name"] \in d.ok ELSE InScopeType(d, c)

(* ---- making instances --------------------------------------------------- *)
(* Choices are drawn from a number that is mixed with the place.             *)
Mix(s, i) == (s * 7919 + (i % 1000) * 104729 + 13) % 99991
At(seq, s) == seq[1 + (s % Len(seq))]
MaxOcc(p) == LET m == Val(p, "maxOccurs") IN
             CASE m = "" -> 1 [] m = "0" -> 0 [] m = "1" -> 1 [] m = "2" -> 2 [] OTHER -> 3
MinOcc(p) == IF Val(p, "minOccurs") = "0" \/ MaxOcc(p) = 0 THEN 0 ELSE 1

Bad == [n |-> "!", a |-> <<>>, k |-> <<>>, x |-> ""]
(* May the particle be left out?  Go writes elements of simple types, unless  *)
(* they are repeatable.                                                       *)
Droppable(d, p, pl) ==
  \A e \in Range_(ElementsIn(p, pl)) : e.pl \/ ComplexOf(d, Declared(d, e.e)) # <<>>

Zero == {"", "0", "-0", "false"}
MaxDepth == 5
RECURSIVE Tree(_, _, _, _), Content(_, _, _, _, _), Once(_, _, _, _, _), Parts(_, _, _, _, _, _), Reps(_, _, _, _, _, _, _)
AttrsOf(d, c, s) ==
  LET as == AttributesOf(d, c)
      value(i) == LET vs == ValuesOfDecl(d, Declared(d, as[i]))
                      wr == IF Val(as[i], "use") = "required" THEN vs ELSE SelectSeq(vs, LAMBDA v : v \notin Zero)
                  IN IF Val(as[i], "use") = "prohibited" \/ (Val(as[i], "use") # "required" /\ Mix(s, i + 50) % 5 = 0) THEN <<>>
                     ELSE IF wr = <<>> THEN <<>> ELSE <<At(wr, Mix(s, i))>>
      here == SelectSeq(TLCEval([i \in 1..Len(as) |-> [n |-> NameOf(as[i]), v |-> value(i)]]), LAMBDA r : r.v # <<>>)
  IN TLCEval([n \in {here[i].n : i \in 1..Len(here)} |-> (CHOOSE r \in Range_(here) : r.n = n).v[1]])

Tree(d, e, s, depth) ==
  LET g == Declared(d, e)
      cs == ComplexOf(d, g)
      t == [Bad EXCEPT !.n = NameOf(e)]
  IN IF cs = <<>> THEN LET vs == ValuesOfDecl(d, g) IN IF vs = <<>> THEN Bad ELSE [t EXCEPT !.x = At(vs, s)]
     ELSE LET c == cs[1] IN
          IF depth > MaxDepth \/ ~InScope(d, c) THEN Bad
          ELSE LET b == BaseValues(d, c) IN
               [t EXCEPT !.a = AttrsOf(d, c, s),
                         !.x = IF b.text THEN At(b.vals, Mix(s, 3)) ELSE "",
                         !.k = TLCEval(Flatten([i \in 1..Len(ParticlesOf(d, c)) |->
                                        Content(d, ParticlesOf(d, c)[i], FALSE, Mix(s, i + 7), depth)], 1))]

(* The trees of a particle, pl: within something repeatable.                  *)
Content(d, p, pl, s, depth) ==
  LET inner == pl \/ (p.t \notin {"element", "all"} /\ Plural(p))
      lo == IF (MinOcc(p) = 0 /\ Droppable(d, p, pl)) \/ MaxOcc(p) = 0 THEN 0 ELSE 1
      hi == IF depth > 2 /\ MaxOcc(p) > lo THEN (IF lo = 0 /\ depth > 3 THEN 0 ELSE 1) ELSE MaxOcc(p)
      n == lo + (s % (hi - lo + 1))
  IN Reps(d, p, inner, s, depth, n, <<>>)
Reps(d, p, pl, s, depth, n, acc) ==
  IF n = 0 THEN acc ELSE Reps(d, p, pl, Mix(s, 17), depth, n - 1, acc \o Once(d, p, pl, Mix(s, n), depth))
Once(d, p, pl, s, depth) ==
  LET ps == SelectSeq(p.k, LAMBDA m : m.t \in Compositors \cup {"element"}) IN
  CASE p.t = "element" -> <<Tree(d, p, s, depth + 1)>>
    [] p.t = "choice" ->
         LET ok == {i \in 1..Len(ps) : \A j \in (1..Len(ps)) \ {i} : Droppable(d, ps[j], pl)}
             simple == {i \in ok : \A x \in Range_(ElementsIn(ps[i], pl)) : ComplexOf(d, Declared(d, x.e)) = <<>>}
             from == IF depth > 2 /\ simple # {} THEN simple ELSE ok
         IN IF ok = {} THEN <<Bad>> ELSE Content(d, ps[At(SetToSeq(from), s)], pl, Mix(s, 23), depth)
    [] p.t = "all" ->    \* in any order
         LET k == IF ps = <<>> THEN 0 ELSE s % Len(ps)
         IN Parts(d, SubSeq(ps, k + 1, Len(ps)) \o SubSeq(ps, 1, k), pl, s, depth, 1)
    [] OTHER -> Parts(d, ps, pl, s, depth, 1)
Parts(d, ps, pl, s, depth, i) ==
  IF i > Len(ps) THEN <<>> ELSE Content(d, ps[i], pl, Mix(s, i + 31), depth) \o Parts(d, ps, pl, s, depth, i + 1)

RECURSIVE Clean(_)
Clean(t) == t.n # "!" /\ \A i \in 1..Len(t.k) : Clean(t.k[i])

(* ---- what conforms ------------------------------------------------------- *)
(* The positions in a sequence of children a particle can lead to.            *)
RECURSIVE Ends(_, _, _), EndsOnce(_, _, _), EndsSeq(_, _, _, _), EndsMore(_, _, _, _)
EndsSeq(ps, i, s, from) == IF i > Len(ps) THEN from ELSE EndsSeq(ps, i + 1, s, Ends(ps[i], s, from))
EndsOnce(p, s, from) ==
  LET ps == SelectSeq(p.k, LAMBDA m : m.t \in Compositors \cup {"element"}) IN
  CASE p.t = "element" -> {j + 1 : j \in {i \in from : i <= Len(s) /\ s[i].n = NameOf(p)}}
    [] p.t = "choice" -> UNION {Ends(ps[i], s, from) : i \in 1..Len(ps)}
    [] p.t = "all" ->    \* every element at most once, those that have to at least once
         {j \in 1..(Len(s) + 1) : \E i \in from :
            /\ j >= i
            /\ \A m \in i..(j - 1) : \E p2 \in Range_(ps) : NameOf(p2) = s[m].n
            /\ \A p2 \in Range_(ps) : LET c == Cardinality({m \in i..(j - 1) : s[m].n = NameOf(p2)})
                                     IN c >= MinOcc(p2) /\ (c <= MaxOcc(p2) \/ MaxOcc(p2) = 3)}
    [] OTHER -> EndsSeq(ps, 1, s, from)
EndsMore(p, s, from, n) ==    \* after further occurrences, n at most
  IF n = 0 \/ from = {} THEN from
  ELSE LET next == EndsOnce(p, s, from) \ from IN from \cup EndsMore(p, s, next, n - 1)
Ends(p, s, from) ==
  LET first == IF MaxOcc(p) = 0 THEN {} ELSE EndsOnce(p, s, from)
  IN (IF MinOcc(p) = 0 THEN from ELSE {})
     \cup EndsMore(p, s, first, IF MaxOcc(p) > 2 THEN Len(s) + 1 ELSE IF MaxOcc(p) = 2 THEN 1 ELSE 0)

RECURSIVE Conforms(_, _, _)
Conforms(d, e, t) ==
  LET g == Declared(d, e)  cs == ComplexOf(d, g) IN
  /\ t.n = NameOf(e)
  /\ IF cs = <<>> THEN t.a = <<>> /\ t.k = <<>> /\ t.x \in Range_(ValuesOfDecl(d, g))
     ELSE LET c == cs[1]
              as == AttributesOf(d, c)
              es == ElementsOf(d, c)
          IN /\ \A n \in DOMAIN t.a : \E i \in 1..Len(as) :
                  NameOf(as[i]) = n /\ Val(as[i], "use") # "prohibited" /\ t.a[n] \in Range_(ValuesOfDecl(d, Declared(d, as[i])))
             /\ \A i \in 1..Len(as) : Val(as[i], "use") = "required" => NameOf(as[i]) \in DOMAIN t.a
             /\ IF BaseValues(d, c).text THEN t.x \in Range_(BaseValues(d, c).vals) ELSE t.x = ""
             /\ (Len(t.k) + 1) \in EndsSeq(ParticlesOf(d, c), 1, t.k, {1})
             /\ \A i \in 1..Len(t.k) : \E x \in Range_(es) : NameOf(x.e) = t.k[i].n /\ Conforms(d, x.e, t.k[i])

(* ---- through Go and back -------------------------------------------------*)
(* Code: declarations by identifier.  The fields of a structure and, through *)
(* it, those of the structures it embeds.                                     *)
RECURSIVE FieldsOf(_, _, _), Codec(_, _, _, _)
Deref(b) == IF b # "" /\ Ch(b, 1) = "*" THEN SubSeq(b, 2, Len(b)) ELSE b
FieldsOf(code, id, fuel) ==
  IF id \notin DOMAIN code \/ fuel = 0 THEN <<>>
  ELSE Flatten(Map(code[id].f, LAMBDA f : IF f.r = "base" THEN FieldsOf(code, Deref(f.b), fuel - 1) ELSE <<f>>), 1)
ZeroOf(b) == CASE b = "string" -> "" [] b = "bool" -> "false" [] OTHER -> "0"
Codec(code, b, deep, t) ==    \* the element t, read into a type and written again
  LET id == Deref(b) IN
  IF b = id THEN IF b \in {"time.Time", "xml.Name", "byte", "interface{}"} THEN Bad ELSE [t EXCEPT !.a = <<>>, !.k = <<>>]
  ELSE IF id \notin DOMAIN code THEN Bad
  ELSE IF code[id].form = "alias"
  THEN IF code[id].f[1].d > 0 /\ code[id].f[1].b # "string" THEN Bad ELSE Codec(code, code[id].f[1].b, code[id].f[1].d, t)
  ELSE LET fs == FieldsOf(code, id, 10)
           xml == SelectSeq(code[id].f, LAMBDA f : f.r = "name")
           attrs == SelectSeq(fs, LAMBDA f : f.r = "attr" /\ f.x \in DOMAIN t.a /\ ~(f.o /\ t.a[f.x] \in Zero))
           kids(f) == LET own == SelectSeq(t.k, LAMBDA k : k.n = f.x)
                          kept == IF f.d > 0 /\ ~(f.b = "uint8") THEN own ELSE IF own = <<>> THEN <<>> ELSE <<own[Len(own)]>>
                      IN IF own = <<>> THEN IF f.d = 0 /\ Deref(f.b) = f.b THEN <<[Bad EXCEPT !.n = f.x, !.x = ZeroOf(f.b)]>> ELSE <<>>
                         ELSE Map(kept, LAMBDA k : Codec(code, f.b, f.d, k))
       IN IF xml # <<>> /\ xml[1].x # t.n THEN Bad
          ELSE [t EXCEPT !.a = TLCEval([n \in {f.x : f \in Range_(attrs)} |-> t.a[n]]),
                         !.k = Flatten(Map(SelectSeq(fs, LAMBDA f : f.r = "elem"), kids), 1),
                         !.x = IF \E f \in Range_(fs) : f.r = "value" THEN t.x ELSE ""]

(* Equal but for the order of children that are called differently.          *)
RECURSIVE Same(_, _)
Same(t, u) ==
  /\ t.n = u.n /\ t.x = u.x
  /\ DOMAIN t.a = DOMAIN u.a /\ \A n \in DOMAIN t.a : t.a[n] = u.a[n]
  /\ Len(t.k) = Len(u.k)
  /\ \A n \in {t.k[i].n : i \in 1..Len(t.k)} :
       LET ts == SelectSeq(t.k, LAMBDA k : k.n = n)  us == SelectSeq(u.k, LAMBDA k : k.n = n)
       IN Len(ts) = Len(us) /\ \A i \in 1..Len(ts) : Same(ts[i], us[i])

(* ---- the behaviours ------------------------------------------------------*)
VARIABLES doc,      \* number of the schema document
          sch,      \* the document
          n,        \* instances so far
          code,     \* the declarations of Go for it
          insts     \* instances of the roots made last
ivars == <<doc, sch, n, code, insts>>

Roots(d) == SelectSeq(d.k, LAMBDA e : e.t = "element")
CodeOf(d) ==    \* the declarations by identifier, and the identifiers of the roots
  LET c == Code("Go", Resolved(Meaning(d)))
  IN [d |-> TLCEval([id \in {c[i].d.id : i \in 1..Len(c)} |-> (CHOOSE x \in Range_(c) : x.d.id = id).d]),
      id |-> Map(Roots(d), LAMBDA e : (CHOOSE x \in Range_(c) : x.c.name = NameOf(e)).d.id)]
Instances(d, k) == IF ~d.compiles THEN <<>> ELSE
  LET ts == TLCEval([i \in 1..Len(Roots(d)) |-> [root |-> Roots(d)[i], i |-> i, t |-> Tree(d, Roots(d)[i], Mix(k, i * 37 + doc), 0)]])
  IN SelectSeq(ts, LAMBDA r : Clean(r.t))

Init == doc \in 1..Len(Docs) /\ n = 0 /\ sch = WithScope(Docs[doc]) /\ code = CodeOf(Docs[doc]) /\ insts = <<>>
Next == /\ n < Count
        /\ n' = n + 1
        /\ insts' = Instances(sch, n + 1)
        /\ \A i \in 1..Len(insts') :
             PrintT("XV-INST " \o ToJson([doc |-> doc, id |-> code.id[insts'[i].i], t |-> insts'[i].t]))
        /\ UNCHANGED <<doc, sch, code>>
Spec == Init /\ [][Next]_ivars

Valid == \A i \in 1..Len(insts) : Conforms(sch, insts[i].root, insts[i].t)
RoundTrip == \A i \in 1..Len(insts) : Same(insts[i].t, Codec(code.d, "*" \o code.id[insts[i].i], 0, insts[i].t))
=============================================================================
