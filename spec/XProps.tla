------------------------------- MODULE XProps -------------------------------
(***************************************************************************)
(* The properties, as relations between a schema document and what was     *)
(* observed of the real code:                                              *)
(*   rec.doc      the document (see XDoc)                                  *)
(*   rec.err[l]   the error of generating language l, or ""                *)
(*   rec.out[l]   the declarations of the generated file (see XGen)        *)
(*   rec.tree[l]  the proto tree (see XDoc)                                *)
(* Each DiffC.. is the set of differences; a property holds if it is empty.*)
(***************************************************************************)
EXTENDS XGen, Integers

Range_(s) == {s[i] : i \in 1..Len(s)}
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range_(s) \cup Range_(t) : Times(s, x) = Times(t, x)

Structs == {"complex", "group", "agroup"}

(* Everything a property needs: the components as written and resolved, and  *)
(* the expected declarations per language.                                   *)
Expect(rec) ==
  LET raw == TLCEval(Meaning(rec.doc))
      res == TLCEval(Resolved(raw))
  IN TLCEval([raw |-> raw, res |-> res, code |-> TLCEval([l \in Langs |-> Code(l, res)])])

Errs(rec) == {<<"error", l, rec.err[l]>> : l \in {k \in Langs : rec.err[k] # ""}}

(* Pairs of an expected and an observed declaration of the same identifier.  *)
Pairs(rec, ex, l) ==
  {<<i, j>> \in (1..Len(ex.code[l])) \X (1..Len(rec.out[l])) : ex.code[l][i].d.id = rec.out[l][j].id}

(* A declaration that is missing, or that can't be read, has nothing of what *)
(* the properties ask of it.                                                 *)
Lost(rec, ex) ==
  UNION {{<<"no declaration", l, ex.code[l][i].d.id, rec.err[l],
            {rec.out[l][j].doc : j \in {k \in 1..Len(rec.out[l]) : rec.out[l][k].form = "junk"}}>> :
            i \in {k \in 1..Len(ex.code[l]) : \A j \in 1..Len(rec.out[l]) : rec.out[l][j].id # ex.code[l][k].d.id}}
         : l \in Langs}

(* ---- C01 ---------------------------------------------------------------- *)
DiffC01(rec, ex) ==
  Errs(rec) \cup
  UNION {LET E == Map(ex.code[l], LAMBDA e : <<e.d.id, e.d.xml>>)
             O == Map(rec.out[l], LAMBDA o : <<o.id, o.xml>>)
         IN {<<"declared", l, x, "times", Times(O, x), "not", Times(E, x)>> :
               x \in {y \in Range_(E) \cup Range_(O) : Times(E, y) # Times(O, y)}}
         : l \in Langs}

(* ---- C02 ---------------------------------------------------------------- *)
Key(f) == <<f.r, f.n, f.x>>
IsBase(l, f) == f.r \in {"value", "base"} \/ (l = "TypeScript" /\ f.n = "Value") \/ f.x = "$value"
DiffC02(rec, ex) ==
  UNION {UNION {
    LET e == ex.code[l][p[1]]
        o == rec.out[l][p[2]]
        NoBase(s) == SelectSeq(s, LAMBDA f : ~IsBase(l, f))
        E == Map(NoBase(e.d.f), Key)
        O == Map(NoBase(o.f), Key)
        nx == Len(XmlName(l, e.d.id, e.c.name))
        sizes == IF e.c.k = "group" THEN <<nx, Len(e.c.els), Len(e.c.grs)>>
                 ELSE <<nx, Len(e.c.ags), Len(e.c.ats), Len(e.c.grs), Len(e.c.els)>>
        From(i) == IF i = 1 THEN 0 ELSE FoldSeq(LAMBDA x, y : x + y, 0, SubSeq(sizes, 1, i - 1))
        Kind(i) == SubSeq(E, From(i) + 1, From(i) + sizes[i])
        Others(i) == UNION {Range_(Kind(j)) : j \in (1..Len(sizes)) \ {i}}
    IN IF e.c.k \notin Structs THEN {}
       ELSE IF ~SameBag(E, O)
       THEN {<<"member", l, e.d.id, x, "times", Times(O, x), "not", Times(E, x)>> :
               x \in {y \in Range_(E) \cup Range_(O) : Times(E, y) # Times(O, y)}}
       ELSE {<<"order", l, e.d.id, Kind(i)>> :
               i \in {j \in 1..Len(sizes) :
                        /\ Range_(Kind(j)) \cap Others(j) = {}
                        /\ SelectSeq(O, LAMBDA x : x \in Range_(Kind(j))) # Kind(j)}}
    : p \in Pairs(rec, ex, l)} : l \in Langs}

(* ---- C03, C04: types of members, bases, items --------------------------- *)
(* Typed places of the e-th declaration: raw name of the type and field.     *)
Typed(l, ex, e) ==
  LET c == e.c  w == ex.raw[e.i]
      nx == Len(XmlName(l, e.d.id, c.name))
      T(ms, off) == TLCEval([i \in 1..Len(ms) |-> [w |-> ms[i].type, pl |-> ms[i].pl, f |-> e.d.f[off + i]]])
      G(ms, off) == TLCEval([i \in 1..Len(ms) |-> [w |-> ms[i].name, pl |-> ms[i].pl, f |-> e.d.f[off + i]]])
      nag == Len(c.ags)  nat == Len(c.ats)  ngr == Len(c.grs)  nel == Len(c.els)
      B == IF Len(e.d.f) > nx + nag + nat + ngr + nel
           THEN <<[w |-> w.base, pl |-> FALSE, f |-> e.d.f[nx + nag + nat + ngr + nel + 1]]>> ELSE <<>>
  IN CASE c.k = "complex" -> G(w.ags, nx) \o T(w.ats, nx + nag) \o G(w.grs, nx + nag + nat)
                             \o T(w.els, nx + nag + nat + ngr) \o B
       [] c.k = "group"   -> T(w.els, nx) \o G(w.grs, nx + nel)
       [] c.k = "agroup"  -> G(w.ags, nx) \o T(w.ats, nx + nag)
       [] c.k \in {"element", "attribute"} -> <<[w |-> w.type, pl |-> w.pl, f |-> e.d.f[1]]>>
       [] c.k = "simple" /\ e.d.form \in {"alias", "struct"} -> <<[w |-> w.base, pl |-> FALSE, f |-> e.d.f[1]]>>
       [] c.k = "simple" /\ e.d.form = "union" ->
            LET ms == InOrder(w.mem) IN
            [i \in 1..(Len(e.d.f) - nx) |-> [w |-> ms[i].name, pl |-> FALSE, f |-> e.d.f[nx + i]]]
       [] OTHER -> <<>>

TypeDiff(rec, ex, Sel(_)) ==
  UNION {UNION {
    LET e == ex.code[l][p[1]]
        o == rec.out[l][p[2]]
    IN UNION {{<<"type", l, e.d.id, t.f.n, "of", t.w, "is", <<g.b, g.d>>, "not", <<t.f.b, t.f.d>>>> :
                 g \in {h \in Range_(o.f) :
                          /\ Key(h) = Key(t.f)
                          /\ h.b # t.f.b \/ (h.d # t.f.d /\ ~t.pl)}}
              : t \in {u \in Range_(Typed(l, ex, e)) :
                         /\ Sel(u.w)
                         \* members of the same key can't be told apart
                         /\ Cardinality({h \in Range_(e.d.f) : Key(h) = Key(u.f)}) = 1}}
    : p \in Pairs(rec, ex, l)} : l \in Langs}

DiffC03(rec, ex) == TypeDiff(rec, ex, IsBuiltin)
ExtDiff(rec, ex) ==
  UNION {{<<"extends", l, ex.code[l][p[1]].d.id, rec.out[l][p[2]].ext, "not", ex.code[l][p[1]].d.ext>> :
            p \in {q \in Pairs(rec, ex, l) : ex.code[l][q[1]].d.ext # rec.out[l][q[2]].ext}} : l \in Langs}
DiffC04(rec, ex) == TypeDiff(rec, ex, LAMBDA w : ~IsBuiltin(w) /\ w # "") \cup ExtDiff(rec, ex)

(* ---- C05 ---------------------------------------------------------------- *)
(* Repeated built-in scalars are no arrays in TypeScript: a known finding,   *)
(* the golden file of the repository asserts it.                             *)
Scalar(l, f) == l = "TypeScript" /\ f.d = 1 /\ f.b \in {"boolean", "number", "string", "Uint8Array"}
DepthsC05(l, ex, e) ==
  {[f |-> t.f, pl |-> t.pl, w |-> t.w] : t \in Range_(Typed(l, ex, e))}
DiffC05(rec, ex) ==
  UNION {UNION {
    LET e == ex.code[l][p[1]]
        o == rec.out[l][p[2]]
    IN IF e.c.k \notin (Structs \cup {"element"}) THEN {}
       ELSE UNION {{<<"depth", l, e.d.id, t.f.n, "is", g.d, "not", t.f.d>> :
                 g \in {h \in Range_(o.f) : Key(h) = Key(t.f) /\ h.d # t.f.d
                          /\ ~(Scalar(l, t.f) /\ t.pl /\ h.d = 0)}}
              : t \in {u \in DepthsC05(l, ex, e) :
                         Cardinality({h \in Range_(e.d.f) : Key(h) = Key(u.f)}) = 1}}
    : p \in Pairs(rec, ex, l)} : l \in Langs}
KnownC05(rec, ex) ==
  \E p \in Pairs(rec, ex, "TypeScript") :
    LET e == ex.code["TypeScript"][p[1]]
        o == rec.out["TypeScript"][p[2]]
    IN \E t \in Range_(Typed("TypeScript", ex, e)) : t.pl /\ Scalar("TypeScript", t.f)
         /\ \E h \in Range_(o.f) : Key(h) = Key(t.f) /\ h.d = 0

(* ---- C06 ---------------------------------------------------------------- *)
DiffC06(rec, ex) ==
  UNION {UNION {
    LET e == ex.code[l][p[1]]
        o == rec.out[l][p[2]]
        nx == Len(XmlName(l, e.d.id, e.c.name)) + Len(e.c.ags)
        A == IF e.c.k \in {"complex", "agroup"} THEN SubSeq(e.d.f, nx + 1, nx + Len(e.c.ats)) ELSE <<>>
    IN UNION {{<<"optional", l, e.d.id, a.n, g.o, "not", a.o>> :
                 g \in {h \in Range_(o.f) : Key(h) = Key(a) /\ h.o # a.o}}
              : a \in {b \in Range_(A) : Cardinality({h \in Range_(e.d.f) : Key(h) = Key(b)}) = 1}}
    : p \in Pairs(rec, ex, l)} : l \in Langs}

(* ---- C07 ---------------------------------------------------------------- *)
DiffC07(rec, ex) ==
  ExtDiff(rec, ex) \cup
  UNION {UNION {
    LET e == ex.code[l][p[1]]
        o == rec.out[l][p[2]]
        B(s) == Map(SelectSeq(s, LAMBDA f : IsBase(l, f)), LAMBDA f : <<f.r, f.n, f.x, f.b, f.d, f.o>>)
    IN IF e.c.k = "complex"
       THEN (IF B(e.d.f) # B(o.f) THEN {<<"base", l, e.d.id, B(o.f), "not", B(e.d.f)>>} ELSE {})
       ELSE IF e.c.k = "simple" /\ e.c.variety = "restriction" /\ e.d.form # "enum"
       THEN (IF Len(o.f) # 1 \/ <<e.d.f[1].b, e.d.f[1].d>> # <<o.f[1].b, o.f[1].d>>
             THEN {<<"value", l, e.d.id, o.f, "not", e.d.f>>} ELSE {})
       ELSE {}
    : p \in Pairs(rec, ex, l)} : l \in Langs}

(* ---- C08 ---------------------------------------------------------------- *)
DiffC08(rec, ex) ==
  UNION {UNION {
    LET e == ex.code[l][p[1]]
        o == rec.out[l][p[2]]
        Form(f) == IF f \in {"union", "struct"} THEN "struct" ELSE f
    IN IF e.c.k # "simple" THEN {}
       ELSE IF Form(e.d.form) # Form(o.form) THEN {<<"form", l, e.d.id, o.form, "not", e.d.form>>}
       ELSE IF e.d.form = "enum" THEN
              (IF Map(e.d.vals, LAMBDA v : v.v) # Map(o.vals, LAMBDA v : v.v)
               THEN {<<"values", l, e.d.id, o.vals, "not", e.d.vals>>} ELSE {})
       ELSE IF ~SameBag(e.d.f, o.f) THEN {<<"members", l, e.d.id, o.f, "not", e.d.f>>} ELSE {}
    : p \in Pairs(rec, ex, l)} : l \in Langs}
  \cup
  UNION {UNION {
    LET c == ex.raw[i]
        ts == SelectSeq(rec.tree[l], LAMBDA t : t.k = "simple" /\ t.name = c.name)
    IN IF c.k # "simple" THEN {}
       ELSE IF Len(ts) # 1 THEN {<<"entries", l, c.name, Len(ts)>>}
       ELSE (IF ts[1].variety # c.variety THEN {<<"variety", l, c.name, ts[1].variety, "not", c.variety>>} ELSE {})
            \cup (IF c.variety = "restriction" /\ ts[1].enum # c.enum
                  THEN {<<"enum", l, c.name, ts[1].enum, "not", c.enum>>} ELSE {})
    : i \in 1..Len(ex.raw)} : l \in Langs}

(* ---- C09 ---------------------------------------------------------------- *)
Letters == Lowers \cup Uppers \cup DOMAIN MoreUpper \cup DOMAIN MoreLower \cup {"ß", "前", "名"}
LegalId(l, s) ==
  /\ Len(s) > 0
  /\ Ch(s, 1) \in (Letters \cup {"_"})
  /\ \A i \in 1..Len(s) : Ch(s, i) \in (Letters \cup Digits \cup {"_"})
  /\ l = "Rust" => s \notin RustKeywords
  /\ l \in {"Java", "Rust"} => s # "_"
  /\ l = "Go" => Capital(Ch(s, 1))
Numbered(l, ex, n) ==    \* the component called n has a numbered identifier
  \E i \in 1..Len(ex.code[l]) : ex.code[l][i].c.name = n /\ ex.code[l][i].d.id # TypeId(l, n)
(* References to such a component do without the number: a known finding.    *)
(* Right would be the identifier it is declared under.                       *)
Declared(l, ex, n) ==
  LET i == CHOOSE j \in 1..Len(ex.code[l]) : ex.code[l][j].c.name = n
  IN (IF l = "Go" THEN "*" ELSE "") \o ex.code[l][i].d.id
WrongRefs(l, ex, e, o) ==
  {t \in Range_(Typed(l, ex, e)) :
     /\ Cardinality({k \in Range_(e.d.f) : Key(k) = Key(t.f)}) = 1
     /\ \E h \in Range_(o.f) : /\ Key(h) = Key(t.f) /\ h.b # t.f.b
                             /\ ~(Numbered(l, ex, t.w) /\ h.b = Declared(l, ex, t.w))}
KnownRefs(l, ex, e, o) ==
  {t \in Range_(Typed(l, ex, e)) :
     /\ Numbered(l, ex, t.w)
     /\ Cardinality({k \in Range_(e.d.f) : Key(k) = Key(t.f)}) = 1
     /\ \E h \in Range_(o.f) : Key(h) = Key(t.f) /\ h.b = t.f.b}
DiffC09(rec, ex) ==
  UNION {
    LET E == Map(ex.code[l], LAMBDA e : e.d.id)
        O == Map(rec.out[l], LAMBDA o : o.id)
    IN (IF E # O THEN {<<"identifiers", l, O, "not", E>>} ELSE {})
       \cup {<<"illegal", l, o>> : o \in {x \in Range_(O) : ~LegalId(l, x)}}
       \cup (IF \E i, j \in 1..Len(O) : i < j /\ O[i] = O[j] THEN {<<"clash", l, O>>} ELSE {})
       \cup (IF E # O THEN {} ELSE
             UNION {LET e == ex.code[l][i]  o == rec.out[l][i]
                        F(s) == Map(s, LAMBDA f : f.n)
                    IN (IF ~SameBag(F(e.d.f), F(o.f)) THEN {<<"members", l, e.d.id, F(o.f), "not", F(e.d.f)>>} ELSE {})
                       \cup {<<"illegal", l, e.d.id, n>> : n \in {x \in Range_(F(o.f)) : x # "" /\ ~LegalId(l, x)}}
                       \cup {<<"reference", l, e.d.id, t.f.n, t.w>> : t \in WrongRefs(l, ex, e, o)}
                       \cup (IF e.d.ext # o.ext /\ ~(Numbered(l, ex, e.c.base) /\ o.ext = Declared(l, ex, e.c.base))
                             THEN {<<"extends", l, e.d.id, o.ext>>} ELSE {})
                    : i \in 1..Len(E)})
    : l \in Langs}
KnownC09(rec, ex) ==
  \E l \in Langs : \E p \in Pairs(rec, ex, l) : KnownRefs(l, ex, ex.code[l][p[1]], rec.out[l][p[2]]) # {}

(* ---- C10 ---------------------------------------------------------------- *)
DiffC10(rec, ex) ==
  UNION {UNION {
    LET e == ex.code[l][p[1]]
        o == rec.out[l][p[2]]
    IN IF e.c.k \in {"simple", "complex", "agroup"}
       THEN (IF o.doc # e.c.doc THEN {<<"doc", l, e.d.id, o.doc, "not", e.c.doc>>} ELSE {})
       ELSE (IF o.doc \notin {"", e.c.doc} THEN {<<"doc", l, e.d.id, o.doc, "not", e.c.doc>>} ELSE {})
    : p \in Pairs(rec, ex, l)} : l \in Langs}
  \cup Errs(rec)
  \cup {<<"junk", l>> : l \in {k \in Langs : \E j \in 1..Len(rec.out[k]) : rec.out[k][j].form = "junk"}}
  \cup {<<"the documentation changes the code", l>> : l \in {k \in Langs : ~rec.same[k]}}

(* ---- C11 ---------------------------------------------------------------- *)
(* What the toolchain says of the Go file (rec.go): what is wrong with it,   *)
(* whether it is formatted, its package and its imports; the package of the  *)
(* Java file.  The imports are those that the declarations need.             *)
ImportsOf(code) ==
  LET fs == UNION {Range_(code[i].d.f) : i \in 1..Len(code)} IN
  (IF \E f \in fs : f.b = "time.Time" THEN {"time"} ELSE {})
  \cup (IF \E f \in fs : f.b = "xml.Name" THEN {"encoding/xml"} ELSE {})
(* The model's own declarations: every type that is used is declared or      *)
(* built in, no two fields of a structure have one name, no alias is its own *)
(* target.  These have nothing to do with the code that was observed.        *)
WellTyped(code) ==
  LET ids == {code[i].d.id : i \in 1..Len(code)}
      Used(i) == {f.b : f \in Range_(code[i].d.f)}
  IN /\ Cardinality(ids) = Len(code)
     /\ \A i \in 1..Len(code) :
          /\ \A b \in Used(i) : Len(b) > 0 /\ (Ch(b, 1) = "*" => \E x \in ids : b = "*" \o x)
          /\ LET fs == code[i].d.f
                 N(f) == IF f.n # "" THEN f.n ELSE IF Ch(f.b, 1) = "*" THEN SubSeq(f.b, 2, Len(f.b)) ELSE f.b IN
             code[i].d.form = "struct" => \A x, y \in 1..Len(fs) : x < y => N(fs[x]) # N(fs[y])
DiffC11(rec, ex) ==
  LET pkg == IF rec.pkg = "" THEN "schema" ELSE rec.pkg IN
  {x[1] : x \in {y \in {<<<<"the code", rec.go.errs>>, rec.go.errs = "">>,
                       <<<<"error", rec.err>>, \A l \in Langs : rec.err[l] = "">>,
                       <<<<"not formatted">>, rec.go.fmt>>,
                       <<<<"package", rec.go.pkg>>, rec.go.pkg = pkg>>,
                       <<<<"package of Java", rec.go.java>>, rec.go.java = pkg>>,
                       <<<<"imports", rec.go.imports, "not", ImportsOf(ex.code["Go"])>>,
                         Range_(rec.go.imports) = ImportsOf(ex.code["Go"])
                         /\ Len(rec.go.imports) = Cardinality(ImportsOf(ex.code["Go"]))>>}
                 : ~y[2]}}

(* ---- C22 ---------------------------------------------------------------- *)
(* What the compilers of TypeScript, Rust and Java report (rec.tools): the   *)
(* codes of errors and the declarations they are about.  The errors that the *)
(* design of the code makes certain are predicted, and known findings.       *)
Compiled == {"TypeScript", "Rust", "Java"}
IdOf(code, i) == code[i].d.id
(* Structures that contain themselves, not by way of a collection.           *)
Holds(code, S) ==
  S \cup {j \in 1..Len(code) : \E i \in S : \E f \in Range_(code[i].d.f) : f.d = 0 /\ f.b = IdOf(code, j)}
RECURSIVE HoldsAll(_, _)
HoldsAll(code, S) == LET T == Holds(code, S) IN IF T = S THEN S ELSE HoldsAll(code, T)
HeldBy(code, i) == {j \in 1..Len(code) : \E f \in Range_(code[i].d.f) : f.d = 0 /\ f.b = IdOf(code, j)}
Infinite(code) == {i \in 1..Len(code) : i \in HoldsAll(code, HeldBy(code, i))}
(* Members that a class has otherwise than the classes it extends.           *)
RECURSIVE Ancestors(_, _, _)
Ancestors(code, i, fuel) ==
  LET up == {j \in 1..Len(code) : code[i].d.ext # "" /\ IdOf(code, j) = code[i].d.ext}
  IN up \cup IF fuel = 0 THEN {} ELSE UNION {Ancestors(code, j, fuel - 1) : j \in up}
Redeclares(code, i) ==
  \E j \in Ancestors(code, i, Len(code)) : \E f \in Range_(code[i].d.f), g \in Range_(code[j].d.f) :
     f.n = g.n /\ <<f.b, f.d, f.o>> # <<g.b, g.d, g.o>>
Predicted(l, code) ==    \* <<finding, code of the error, declaration>>
  CASE l = "TypeScript" ->
         {<<"ts-base-order", "TS2449", IdOf(code, i)>> :
            i \in {k \in 1..Len(code) : code[k].d.ext # "" /\ \E j \in (k + 1)..Len(code) : IdOf(code, j) = code[k].d.ext}}
         \cup {<<"ts-redeclared", x, IdOf(code, i)>> : x \in {"TS2415", "TS2416"},
                                                     i \in {k \in 1..Len(code) : Redeclares(code, k)}}
    [] l = "Rust" -> {<<"rust-recursive", "E0072", IdOf(code, i)>> : i \in Infinite(code)}
    [] l = "Java" ->
         {<<"java-public", "compiler.err.class.public.should.be.in.file", IdOf(code, i)>> : i \in 1..Len(code)}
         \cup {<<"java-annotations", "compiler.err.annotation.type.not.applicable", IdOf(code, i)>> :
                  i \in {k \in 1..Len(code) : code[k].d.form = "alias"}}
DiffC22(rec, ex) ==
  Errs(rec) \cup
  UNION {LET may == {<<p[2], p[3]>> : p \in Predicted(l, ex.code[l])}
         IN {<<l, t.code, t.at, t.what>> : t \in {d \in Range_(rec.tools[l]) : <<d.code, d.at>> \notin may}}
         : l \in Compiled}
KnownC22(rec, ex) ==
  UNION {{p[1] : p \in {q \in Predicted(l, ex.code[l]) : \E d \in Range_(rec.tools[l]) : <<d.code, d.at>> = <<q[2], q[3]>>}}
         : l \in Compiled}
(* The model's own declarations, as for Go: whatever is used is declared or  *)
(* a type of the language, what is extended is a class, and no two members   *)
(* of a structure have one name.                                             *)
LangTypes == [l \in Langs |-> {Builtin[b][l].b : b \in BuiltinNames}]
WellFormed(l, code) ==
  LET ids == {IdOf(code, i) : i \in 1..Len(code)}
      classes == {IdOf(code, i) : i \in {k \in 1..Len(code) : l = "Java" \/ code[k].d.form \in {"struct", "union"}}}
  IN /\ Cardinality(ids) = Len(code)
     /\ \A i \in 1..Len(code) :
          LET fs == code[i].d.f IN
          /\ \A f \in Range_(fs) : f.b \in ids \cup LangTypes[l]
          /\ code[i].d.ext \in classes \cup {""}
          /\ \A x, y \in 1..Len(fs) : x < y => fs[x].n # fs[y].n

(* ---- C21 ---------------------------------------------------------------- *)
TyStr(l, ty) ==
  IF ty.d = 0 THEN ty.b
  ELSE CASE l = "Go" -> "[]" \o ty.b [] l = "TypeScript" -> "Array<" \o ty.b \o ">"
         [] l = "C" -> ty.b \o "[]" [] l = "Java" -> "List<" \o ty.b \o ">" [] l = "Rust" -> "Vec<" \o ty.b \o ">"
RECURSIVE Along(_, _, _)
Along(n, ms, fuel) ==
  {n} \cup (IF fuel = 0 \/ IsBuiltin(n) THEN {} ELSE LET b == DirectBase(n, ms) IN IF b = n THEN {} ELSE Along(b, ms, fuel - 1))
(* Names under which the tree may give the type written as n.                *)
Names(l, n, ms) ==
  IF n = "" THEN {""}
  ELSE UNION {IF IsBuiltin(m) THEN {m, TyStr(l, Builtin[m][l])} ELSE {m} : m \in Along(n, ms, Len(ms))}
(* N gives the names of what's written as a type.                            *)
MemberOk(t, m, N(_)) ==
  /\ t.name = m.name /\ t.doc \in {"", m.doc}
  /\ t.type \in N(IF m.type = "" THEN m.name ELSE m.type)
  /\ (m.k = "element" \/ m.k = "group") => t.pl = m.pl
  /\ m.k = "attribute" => t.opt = m.opt
SeqOk(ts, ms, N(_)) == Len(ts) = Len(ms) /\ \A i \in 1..Len(ms) : MemberOk(ts[i], ms[i], N)
EntryDiff(t, c, N(_)) ==
  {x \in {<<"kind", t.k = c.k>>, <<"name", t.name = c.name>>, <<"doc", t.doc = c.doc>>,
          <<"base", c.k \in {"simple", "complex"} /\ c.variety # "union" => t.base \in N(c.base)>>,
          <<"type", c.k \in {"element", "attribute"} => t.type \in N(c.type)>>,
          <<"plural", c.k \in {"element"} => t.pl = c.pl>>,
          <<"optional", c.k = "attribute" => t.opt = c.opt>>,
          <<"variety", t.variety = c.variety>>,
          <<"union", c.variety = "union" =>
                /\ {m.name : m \in Range_(t.mem)} = {m.name : m \in c.mem} /\ Len(t.mem) = Cardinality(c.mem)
                /\ \A m \in Range_(t.mem) : m.type = "" \/ \E x \in c.mem : x.name = m.name /\ m.type \in N(x.type)>>,
          <<"enum", c.variety = "restriction" => t.enum = c.enum>>,
          <<"elements", SeqOk(t.els, c.els, N)>>,
          <<"attributes", SeqOk(t.ats, c.ats, N)>>,
          <<"groups", SeqOk(t.grs, c.grs, N)>>,
          <<"attribute groups", SeqOk(t.ags, c.ags, N)>>} : ~x[2]}
(* The entries of a tree.                                                     *)
TreeDiff(l, tree, raw, N(_)) ==
  IF Map(tree, LAMBDA t : <<t.k, t.name>>) # Map(raw, LAMBDA c : <<c.k, c.name>>)
  THEN {<<"entries", l, Map(tree, LAMBDA t : <<t.k, t.name>>), "not", Map(raw, LAMBDA c : <<c.k, c.name>>)>>}
  ELSE UNION {{<<"entry", l, raw[i].name, x[1]>> : x \in EntryDiff(tree[i], raw[i], N)} : i \in 1..Len(raw)}
DiffC21(rec, ex) ==
  Errs(rec) \cup UNION {TreeDiff(l, rec.tree[l], ex.raw, LAMBDA n : Names(l, n, ex.raw)) : l \in Langs}

Diff(p, rec, ex) ==
  (IF p \in {"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10"} THEN Lost(rec, ex) ELSE {}) \cup
  CASE p = "C01" -> DiffC01(rec, ex) [] p = "C02" -> DiffC02(rec, ex) [] p = "C03" -> DiffC03(rec, ex)
    [] p = "C04" -> DiffC04(rec, ex) [] p = "C05" -> DiffC05(rec, ex) [] p = "C06" -> DiffC06(rec, ex)
    [] p = "C07" -> DiffC07(rec, ex) [] p = "C08" -> DiffC08(rec, ex) [] p = "C09" -> DiffC09(rec, ex)
    [] p = "C10" -> DiffC10(rec, ex) [] p = "C11" -> DiffC11(rec, ex) [] p = "C21" -> DiffC21(rec, ex)
    [] p = "C22" -> DiffC22(rec, ex)
=============================================================================
