---------------------------- MODULE XPresentTrace ----------------------------
(***************************************************************************)
(* Runs of the real code on documents written in the styles of XPresent:   *)
(* a record has the project p, its style s and what came out (of each      *)
(* language, a digest of all files, or the error).  The first record of a  *)
(* project is that of the plain style; all others must equal it.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.XV_RECS)
First == [p \in {Recs[i].p : i \in 1..Len(Recs)} |->
            CHOOSE i \in 1..Len(Recs) : Recs[i].p = p /\ \A j \in 1..(i - 1) : Recs[j].p # p]

VARIABLES rec, diff
vars == <<rec, diff>>
Init == rec = 0 /\ diff = {}
Next == /\ rec < Len(Recs)
        /\ rec' = rec + 1
        /\ LET r == Recs[rec + 1]  f == Recs[First[r.p]] IN
           diff' = {l \in DOMAIN f.out : r.out[l] # f.out[l] \/ f.err[l] # ""}
Spec == Init /\ [][Next]_vars
(* What comes out doesn't depend on the style.                               *)
OnlyInfoset == diff = {}
=============================================================================
