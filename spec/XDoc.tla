-------------------------------- MODULE XDoc --------------------------------
(***************************************************************************)
(* Schema documents: trees of nodes [t: tag, a: attributes, k: children,   *)
(* x: text], and the events an XML reader makes of them.  References are   *)
(* by local name; the value of memberTypes is a sequence of names.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Has(n, k)  == k \in DOMAIN n.a
Val(n, k)  == IF Has(n, k) THEN n.a[k] ELSE ""
Node(t, a, k) == [t |-> t, a |-> a, k |-> k, x |-> ""]
NoAttr == <<>>

(* A number without white space, sign and zeros at its beginning: "" is none.*)
RECURSIVE Number(_)
Number(v) ==
  CASE v = "" -> ""
    [] SubSeq(v, 1, 1) \in {" ", "+", "0"} -> Number(SubSeq(v, 2, Len(v)))
    [] SubSeq(v, Len(v), Len(v)) = " " -> Number(SubSeq(v, 1, Len(v) - 1))
    [] OTHER -> v
Plural(n) == Has(n, "maxOccurs") /\ Number(n.a["maxOccurs"]) \notin {"", "1"}

RECURSIVE Events(_), EventsSeq(_, _)
EventsSeq(ns, i) == IF i > Len(ns) THEN <<>> ELSE Events(ns[i]) \o EventsSeq(ns, i + 1)
Events(n) ==
  <<[e |-> "s", t |-> n.t, a |-> n.a, x |-> ""]>>
  \o (IF n.x = "" THEN <<>> ELSE <<[e |-> "t", t |-> "", a |-> NoAttr, x |-> n.x]>>)
  \o EventsSeq(n.k, 1)
  \o <<[e |-> "e", t |-> n.t, a |-> NoAttr, x |-> ""]>>

(* Components.  All kinds share one record type.                             *)
NoComp == [k |-> "", name |-> "", doc |-> "", variety |-> "", base |-> "", type |-> "",
           pl |-> FALSE, opt |-> TRUE, ref |-> "", mem |-> {}, enum |-> <<>>,
           els |-> <<>>, ats |-> <<>>, grs |-> <<>>, ags |-> <<>>]
Comp(k, name) == [NoComp EXCEPT !.k = k, !.name = name]

(* A member listed twice is one member, plural if one of them is.            *)
AddMember(ms, m) ==
  LET same == {i \in 1..Len(ms) : ms[i].name = m.name}
  IN IF same = {} THEN Append(ms, m)
     ELSE LET i == CHOOSE j \in same : \A h \in same : j <= h
          IN IF ms[i].type = m.type THEN [ms EXCEPT ![i].pl = @ \/ m.pl]
             ELSE Append(ms, m)

(* White space in documentation is immaterial; texts carry none.             *)
AddDoc(doc, text) == doc \o text
=============================================================================
