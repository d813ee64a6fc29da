----------------------------- MODULE XPathsTrace -----------------------------
(***************************************************************************)
(* Runs of the real command on the trees and arguments that XPaths chose.  *)
(* A record has the configuration, the output files with the numbers of    *)
(* the schemas whose declarations they have, whether the inputs are as     *)
(* before, and whether the command said that it succeeded.                 *)
(***************************************************************************)
EXTENDS XPaths
Recs == ndJsonDeserialize(IOEnv.XV_RECS)
VARIABLES rec, ok
tvars == <<rec, ok>>
Outs(r) == {[path |-> r.outs[k].path, who |-> r.outs[k].who] : k \in DOMAIN r.outs}
Judge(r) == /\ r.success
            /\ r.kept
            /\ Right(r.conf, Outs(r))
TraceInit == Init /\ rec = 0 /\ ok = TRUE
TraceNext == rec < Len(Recs) /\ rec' = rec + 1 /\ ok' = Judge(Recs[rec + 1]) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<rec, ok, conf, size, todo, outs, pc>>
Conforms == ok
Expected == [rec |-> rec, named |-> IF rec = 0 THEN {} ELSE {Place(Recs[rec].conf, k) : k \in Named(Recs[rec].conf)},
             needed |-> IF rec = 0 THEN {} ELSE Needed(Recs[rec].conf),
             observed |-> IF rec = 0 THEN {} ELSE Outs(Recs[rec])]
=============================================================================
