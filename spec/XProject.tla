------------------------------ MODULE XProject ------------------------------
(***************************************************************************)
(* Projects: schema files that import and include one another.  A file has *)
(*   dir, ns   its directory and target namespace                          *)
(*   pre, xs   the prefixes of that namespace and of XML Schema            *)
(*   inc       the files it includes (same namespace, same directory)      *)
(*   imp       its imports [f: file, 0 if it is missing, Remote if it is   *)
(*             elsewhere: not a file, or not said; ns; p: prefix]          *)
(*   types     its components [n: name, k: kind, refs: [p: prefix, m: name]]*)
(* A prefix means what the file that uses it binds it to.  "" is the       *)
(* default namespace, or none, "." stands for the file's own prefix or, for *)
(* built-in types, that of XML Schema.                                     *)
(*                                                                         *)
(* The machine builds a project: files, what they depend on (cycles are    *)
(* welcome), the names of their components, and at last, one by one, the   *)
(* references, to anything that can be seen from where they stand.  If     *)
(* Circular, these needn't make sense.                                     *)
(***************************************************************************)
EXTENDS XProps, Json, IOUtils

EnvN(name) == CHOOSE n \in 1..9 : ToString(n) = IOEnv[name]
MaxFiles  == EnvN("XV_FILES")
MaxTypes  == EnvN("XV_TYPES")
Homonyms  == IOEnv.XV_HOMONYMS = "yes"
Circular  == "XV_CIRCULAR" \in DOMAIN IOEnv    \* references to anything, itself included: such schemas mean nothing

Dirs  == {"in", "in/sub"}
Spaces == {"urn:a", "urn:b", "urn:c", ""}
SchemaPrefixes == {"xs", "p", "q", ""}
OwnPrefixes == {"t", "q", "x", ""}
PrefixPool == <<"p", "q", "x", "t", "", "y">>
Remote == 9
Plain == {"int", "QName"}
Kinds == {"restr", "list", "union", "complex", "ext", "sext", "element", "attribute", "inline", "group", "agroup", "refs"}
(* What the references of a component may be to.                             *)
Slots(k) == CASE k = "restr" -> <<"base">>            [] k = "list" -> <<"simple">>
              [] k = "union" -> <<"member", "member">>  [] k = "complex" -> <<"any", "simple">>
              [] k = "ext" -> <<"complex", "any">>     [] k = "sext" -> <<"base">>
              [] k = "element" -> <<"any">>            [] k = "attribute" -> <<"simple">>
              [] k = "inline" -> <<"base">>            [] k = "group" -> <<"any">>
              [] k = "agroup" -> <<"simple">>          [] k = "refs" -> <<"an element", "a group", "an attribute", "an agroup">>

(****************************** what is visible ****************************)
RECURSIVE Includes(_, _)
Includes(P, S) == LET T == S \cup UNION {Range_(P[k].inc) : k \in S} IN IF T = S THEN S ELSE Includes(P, T)
TypesOf(P, k) == Range_(P[k].types)
(* The file in which the component called m is found that file k means, or 0 *)
Find(P, k, m) == LET hits == {h \in Includes(P, {k}) : \E t \in TypesOf(P, h) : t.n = m}
                 IN IF hits = {} THEN 0 ELSE CHOOSE h \in hits : \A g \in hits : h <= g
Binding(P, k, p) ==    \* the file that prefix p of file k stands for
  IF p = "." THEN k
  ELSE LET i == CHOOSE i \in DOMAIN P[k].imp : P[k].imp[i].p = p IN P[k].imp[i].f
The(P, h, m) == CHOOSE t \in TypesOf(P, h) : t.n = m
(* The type that a reference in file k ends in: a built-in type or a name.   *)
RECURSIVE Final(_, _, _)
Final(P, k, ref) ==
  IF ref.p = "." /\ IsBuiltin(ref.m) THEN ref.m
  ELSE LET g == Binding(P, k, ref.p)
           h == IF g \in {0, Remote} THEN 0 ELSE Find(P, g, ref.m)
       IN IF h = 0 THEN ref.m
          ELSE LET t == The(P, h, ref.m) IN IF t.k \in {"restr", "element", "attribute"} THEN Final(P, h, t.refs[1]) ELSE ref.m

(* The files that are read for file k.                                       *)
RECURSIVE Reach(_, _)
Reach(P, S) ==
  LET T == S \cup UNION {Range_(P[k].inc) \cup {P[k].imp[i].f : i \in DOMAIN P[k].imp} : k \in S \ {0, Remote}}
  IN IF T = S THEN S ELSE Reach(P, T)
NeedsMissing(P, k) == \E t \in TypesOf(P, k) : \E i \in DOMAIN t.refs : t.refs[i].p # "." /\ Binding(P, k, t.refs[i].p) = 0
MustFail(P, k)    == NeedsMissing(P, k)
MayFail(P, k)     == \E j \in Reach(P, {k}) \ {0, Remote} : NeedsMissing(P, j)

(******************************* documents *********************************)
Ref(r) == IF r.p = "." THEN r.m ELSE r.p \o ":" \o r.m
NodeOf(t) ==
  LET R(i) == Ref(t.refs[i])
      El == Node("sequence", <<>>, <<Node("element", [name |-> "e", type |-> R(IF t.k = "ext" THEN 2 ELSE 1)], <<>>)>>)
        RefTo(i, tag) == IF t.refs[i].m = "" THEN <<>> ELSE <<Node(tag, [ref |-> R(i)], <<>>)>>
  IN CASE t.k = "restr" -> Node("simpleType", [name |-> t.n], <<Node("restriction", [base |-> R(1)], <<>>)>>)
       [] t.k = "list"  -> Node("simpleType", [name |-> t.n], <<Node("list", [itemType |-> R(1)], <<>>)>>)
       [] t.k = "union" -> Node("simpleType", [name |-> t.n], <<Node("union", [memberTypes |-> <<R(1), R(2)>>], <<>>)>>)
       [] t.k = "complex" -> Node("complexType", [name |-> t.n], <<El, Node("attribute", [name |-> "a", type |-> R(2)], <<>>)>>)
       [] t.k = "ext" -> Node("complexType", [name |-> t.n], <<Node("complexContent", <<>>, <<Node("extension", [base |-> R(1)], <<El>>)>>)>>)
       [] t.k = "sext" -> Node("complexType", [name |-> t.n], <<Node("simpleContent", <<>>, <<Node("extension", [base |-> R(1)], <<>>)>>)>>)
       [] t.k = "element" -> Node("element", [name |-> t.n, type |-> R(1)], <<>>)
       [] t.k = "attribute" -> Node("attribute", [name |-> t.n, type |-> R(1)], <<>>)
       [] t.k = "group" -> Node("group", [name |-> t.n], <<El>>)
       [] t.k = "agroup" -> Node("attributeGroup", [name |-> t.n], <<Node("attribute", [name |-> "a", type |-> R(1)], <<>>)>>)
       [] t.k = "refs" -> Node("complexType", [name |-> t.n], <<Node("sequence", <<>>, RefTo(1, "element") \o RefTo(2, "group"))>>
                                                              \o RefTo(3, "attribute") \o RefTo(4, "attributeGroup"))
       [] t.k = "inline" -> Node("complexType", [name |-> t.n], <<Node("sequence", <<>>, <<Node("element", [name |-> "e"],
                              <<Node("simpleType", <<>>, <<Node("restriction", [base |-> R(1)], <<>>)>>)>>)>>)>>)
Doc(f) == Node("schema", <<>>, TLCEval([i \in 1..Len(f.types) |-> NodeOf(f.types[i])]))

(******************************* the machine *******************************)
VARIABLES proj, size, at, count, pc
vars == <<proj, size, at, count, pc>>
Init == /\ proj = <<>> /\ size \in 2..MaxFiles /\ at = 1 /\ count = 0 /\ pc = "files"

AddFile == /\ pc = "files"
           /\ \E d \in Dirs, n \in Spaces, pre \in OwnPrefixes, xs \in SchemaPrefixes :
                /\ pre # xs /\ (n = "" => pre = "")
                /\ proj' = Append(proj, [dir |-> d, ns |-> n, pre |-> pre, xs |-> xs, inc |-> <<>>, imp |-> <<>>, types |-> <<>>])
           /\ pc' = IF Len(proj) + 1 = size THEN "deps" ELSE "files"
           /\ UNCHANGED <<size, at, count>>
Includable(k, S) == {g \in S : proj[g].ns = proj[k].ns /\ proj[g].dir = proj[k].dir}
Importable(k, S) == {g \in S : proj[g].ns # proj[k].ns}
Depend == /\ pc = "deps"
          /\ \E S \in SUBSET ((1..size) \ {at}), turn \in 0..2, missing \in 0..5 :   \* (one in six, and one in six remote)
               LET I == Includable(at, S)  M == SetToSeq(Importable(at, S))
                   \* what has no namespace can be referred to if there is no default one
                   plain == \E i \in DOMAIN M : proj[M[i]].ns = ""
                   free == SelectSeq(PrefixPool, LAMBDA p : p \notin {proj[at].pre, proj[at].xs} /\ ~(p = "" /\ (plain \/ proj[at].ns = "")))
                   P(i) == IF i > 0 /\ proj[M[i]].ns = "" THEN "" ELSE free[((i + turn) % Len(free)) + 1]
               IN /\ I \cup Range_(M) = S
                  /\ \A i, j \in DOMAIN M : i # j => proj[M[i]].ns # proj[M[j]].ns
                  /\ Len(M) < Len(free)
                  /\ plain => "" \notin {proj[at].pre, proj[at].xs}
                  /\ proj' = [proj EXCEPT ![at].inc = SetToSeq(I),
                        ![at].imp = [i \in 1..Len(M) |-> [f |-> M[i], ns |-> proj[M[i]].ns, p |-> P(i)]]
                                    \o (IF missing = 0 THEN <<[f |-> 0, ns |-> "urn:missing", p |-> P(0)]>>
                                        ELSE IF missing = 1 THEN <<[f |-> Remote, ns |-> "urn:remote", p |-> P(0)]>> ELSE <<>>)]
          /\ at' = IF at = size THEN 1 ELSE at + 1
          /\ pc' = IF at = size THEN "types" ELSE "deps"
          /\ UNCHANGED <<size, count>>
AddType == /\ pc = "types" /\ Len(proj[at].types) < MaxTypes
           /\ \E k \in Kinds, often \in 0..4 :     \* (one in four)
                LET h == often > 0 IN LET n == IF h THEN "Code" ELSE "T" \o ToString(count + 1) IN
                /\ /\ Circular => k \in {"restr", "list", "union", "ext", "element", "complex", "attribute"}
                /\ h => Homonyms /\ k = "restr" /\ \A j \in DOMAIN proj : proj[j].ns = proj[at].ns => \A t \in TypesOf(proj, j) : t.n # "Code"
                /\ proj' = [proj EXCEPT ![at].types = Append(@, [n |-> n, k |-> k, refs |-> <<>>])]
           /\ count' = count + 1 /\ UNCHANGED <<size, at, pc>>
NextFile == /\ pc = "types" /\ proj[at].types # <<>>
            /\ at' = IF at = size THEN 1 ELSE at + 1
            /\ pc' = IF at = size THEN "refs" ELSE "types"
            /\ UNCHANGED <<proj, size, count>>
Complete(t) == Len(t.refs) = Len(Slots(t.k))
Fits(slot, t) == CASE Circular -> TRUE
                   [] slot = "base"    -> t.k = "restr" /\ Complete(t)
                   [] slot \in {"simple", "member"} -> t.k \in {"restr", "list", "union"}
                   [] slot = "complex" -> t.k \in {"complex", "sext", "inline"} \/ (t.k = "ext" /\ Complete(t))
                   [] slot = "any"     -> t.k \notin {"element", "attribute", "group", "agroup"}
                   [] slot = "an element" -> t.k = "element"   [] slot = "a group"  -> t.k = "group"
                   [] slot = "an attribute" -> t.k = "attribute" [] slot = "an agroup" -> t.k = "agroup"
(* What file k can refer to, and how.                                        *)
Candidates(k, slot) ==
  (IF slot \notin {"base", "simple", "member", "any"} THEN {} ELSE {[p |-> ".", m |-> b] : b \in IF Circular THEN {} ELSE Plain})
  \cup {[p |-> ".", m |-> t.n] : t \in {u \in UNION {TypesOf(proj, h) : h \in Includes(proj, {k})} : Fits(slot, u)}}
  \cup UNION {LET i == proj[k].imp[j] IN
              IF i.f = 0 THEN {[p |-> i.p, m |-> "Gone"]}
              ELSE IF i.f = Remote THEN {[p |-> i.p, m |-> "Far"]}
              ELSE {[p |-> i.p, m |-> t.n] :
                      t \in {u \in UNION {TypesOf(proj, h) : h \in Includes(proj, {i.f})} : Fits(slot, u)}}
              : j \in DOMAIN proj[k].imp}
Refer == /\ pc = "refs"
         /\ \E k \in 1..size : \E i \in DOMAIN proj[k].types :
              LET t == proj[k].types[i] IN
              /\ ~Complete(t)
              /\ \E r \in LET C == Candidates(k, Slots(t.k)[Len(t.refs) + 1])
                            IN IF C = {} /\ t.k = "refs" THEN {[p |-> ".", m |-> ""]} ELSE C :
                   /\ Slots(t.k)[Len(t.refs) + 1] = "member" /\ ~Circular => \A j \in DOMAIN t.refs : t.refs[j].m # r.m
                   /\ r.m # t.n \/ t.k = "complex" \/ Circular
                   /\ proj' = [proj EXCEPT ![k].types[i].refs = Append(@, r)]
         /\ UNCHANGED <<size, at, count, pc>>
Done == /\ pc = "refs" /\ \A k \in 1..size : \A t \in TypesOf(proj, k) : Complete(t)
        /\ pc' = "done" /\ UNCHANGED <<proj, size, at, count>>
Next == AddFile \/ Depend \/ AddType \/ NextFile \/ Refer \/ Done
Spec == Init /\ [][Next]_vars

(* Restrictions end in a built-in type, unless the import of one is missing  *)
(* or remote.                                                                *)
Ends == pc = "done" /\ ~Circular => \A k \in 1..size : \A t \in TypesOf(proj, k) :
          t.k = "restr" => LET b == Final(proj, k, t.refs[1]) IN IsBuiltin(b) \/ b = "Far" \/ MayFail(proj, k)
Told == pc = "done" => PrintT("XV-PROJECT " \o ToJson([files |-> proj, docs |-> [k \in 1..size |-> Doc(proj[k])]]))

(**************************** what is expected *****************************)
Colon(s) == IF \E i \in 1..Len(s) : Ch(s, i) = ":" THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = ":" ELSE 0
RefOf(s) == LET i == Colon(s) IN IF i = 0 THEN [p |-> ".", m |-> s] ELSE [p |-> SubSeq(s, 1, i - 1), m |-> SubSeq(s, i + 1, Len(s))]
LocalName(s) == RefOf(s).m
ExpectIn(P, k) ==
  LET raw0 == TLCEval(Meaning(Doc(P[k])))
      (* union members are called by their local names *)
      T(s) == IF s = "" THEN "" ELSE Final(P, k, RefOf(s))
      res0 == TLCEval(ResolvedBy(raw0, T))
      M(m) == [m EXCEPT !.name = LocalName(@), !.type = LocalName(@)]
      L(c) == [c EXCEPT !.els = Map(@, M), !.ats = Map(@, M), !.grs = Map(@, M), !.ags = Map(@, M), !.mem = {[name |-> LocalName(m.name), type |-> m.type] : m \in c.mem}]
      raw == Map(raw0, L)
      res == Map(res0, L)
  IN TLCEval([raw |-> raw, res |-> res, code |-> TLCEval([l \in Langs |-> Code(l, res)])])

(* The proto tree: what is written, and types by any of the names on their   *)
(* way to the type they end in.                                              *)
RECURSIVE Steps(_, _, _)
Steps(P, k, ref) ==
  {ref.m} \cup
  (IF ref.p = "." /\ IsBuiltin(ref.m) THEN {}
   ELSE LET g == Binding(P, k, ref.p)
            h == IF g \in {0, Remote} THEN 0 ELSE Find(P, g, ref.m)
        IN IF h = 0 THEN {}
           ELSE LET t == The(P, h, ref.m) IN IF t.k \in {"restr", "element", "attribute"} THEN Steps(P, h, t.refs[1]) ELSE {})
StepNames(P, k, l, s) ==
  IF s = "" THEN {""}
  ELSE UNION {IF IsBuiltin(m) THEN {m, TyStr(l, Builtin[m][l])} ELSE {m} : m \in Steps(P, k, RefOf(s))}
TreeIn(P, k) ==
  LET M(m) == [m EXCEPT !.name = LocalName(@), !.type = IF @ = "" THEN m.name ELSE @]
      L(c) == [c EXCEPT !.els = Map(@, M), !.ats = Map(@, M), !.grs = Map(@, M), !.ags = Map(@, M),
                        !.mem = {[name |-> LocalName(m.name), type |-> m.type] : m \in c.mem}]
  IN Map(Meaning(Doc(P[k])), L)
=============================================================================
