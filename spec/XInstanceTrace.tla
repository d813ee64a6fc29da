--------------------------- MODULE XInstanceTrace ---------------------------
(***************************************************************************)
(* Instance documents that were read into the types of the real generated  *)
(* code, and written again: want is the document, got what was written.    *)
(***************************************************************************)
EXTENDS XInstance
Recs == ndJsonDeserialize(IOEnv.XV_RECS)
VARIABLES r, judged, ok
tvars == <<r, judged, ok, doc, sch, n, code, insts>>
TraceInit == r \in 1..Len(Recs) /\ judged = FALSE /\ ok = TRUE /\ doc = 0 /\ sch = 0 /\ n = 0 /\ code = 0 /\ insts = 0
Kept(rec) == rec.err = "" /\ Same(rec.want, rec.got)
TraceNext == ~judged /\ judged' = TRUE
             /\ (IF Recs[r].known # "" THEN ok' = TRUE /\ (Kept(Recs[r]) \/ PrintT("XV-KNOWN " \o Recs[r].known))
                 ELSE ok' = Kept(Recs[r]))
             /\ UNCHANGED <<r, doc, sch, n, code, insts>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforming == ok
Shown == [rec |-> r, ok |-> ok]
=============================================================================
