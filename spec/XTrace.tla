------------------------------- MODULE XTrace -------------------------------
(***************************************************************************)
(* Recorded runs of the real code, checked against the specification: for  *)
(* each record the parser machine takes the events of the document; its    *)
(* result has to be the meaning of the document, and the observed output   *)
(* has to satisfy the property.                                            *)
(***************************************************************************)
EXTENDS XProps, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.XV_RECS)
Prop == IOEnv.XV_PROP
Evs  == TLCEval([i \in 1..Len(Recs) |-> Events(Recs[i].doc)])

VARIABLES r, i, st, diff
vars == <<r, i, st, diff>>

Init == r \in 1..Len(Recs) /\ i = 1 /\ st = Init0 /\ diff = {}

Read == /\ i <= Len(Evs[r])
        /\ st' = Step(st, Evs[r][i])
        /\ i' = i + 1
        /\ UNCHANGED <<r, diff>>

(* The end of the document: what was observed is judged.                     *)
Judge == /\ i = Len(Evs[r]) + 1
         /\ i' = i + 1
         /\ LET ex == Expect(Recs[r])
                d  == Diff(Prop, Recs[r], ex)
                ok == Recs[r].known # ""
            IN /\ diff' = IF ok THEN {} ELSE d
               /\ (ok /\ d # {}) => PrintT("XV-KNOWN " \o Recs[r].known)
               /\ (Prop = "C09" /\ ~ok /\ KnownC09(Recs[r], ex)) => PrintT("XV-KNOWN numbered-reference")
               /\ (Prop = "C22" /\ ~ok) => \A id \in KnownC22(Recs[r], ex) : PrintT("XV-KNOWN " \o id)
               /\ (Prop = "C05" /\ ~ok /\ KnownC05(Recs[r], ex)) => PrintT("XV-KNOWN ts-scalar")
         /\ UNCHANGED <<r, st>>

Next == Read \/ Judge
Spec == Init /\ [][Next]_vars

BalancedInv == Balanced(st)
(* The machine agrees with the meaning.                                      *)
MachineDiff == LET a == Resolved(st.tree)  b == Resolved(Meaning(Recs[r].doc))
               IN IF Len(a) # Len(b) THEN {<<Map(a, LAMBDA c : c.name), Map(b, LAMBDA c : c.name)>>}
                  ELSE {<<a[j], b[j]>> : j \in {k \in 1..Len(a) : a[k] # b[k]}}
MachineInv == i = Len(Evs[r]) + 2 => Settled(st) /\ MachineDiff = {}
(* The declarations the specification asks for make sense.                   *)
ModelInv == (Recs[r].known = "" /\ i = Len(Evs[r]) + 2) =>
              CASE Prop = "C11" -> WellTyped(Expect(Recs[r]).code["Go"])
                [] Prop = "C22" -> LET ex == Expect(Recs[r]) IN \A l \in Compiled : WellFormed(l, ex.code[l])
                [] OTHER -> TRUE
(* The code agrees with the specification.                                   *)
PropertyInv == diff = {}

Alias == [rec |-> Recs[r].id, event |-> i, diff |-> diff,
          machine |-> IF i = Len(Evs[r]) + 2 THEN MachineDiff ELSE {}]
=============================================================================
