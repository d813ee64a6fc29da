----------------------------- MODULE XCliTrace -------------------------------
(***************************************************************************)
(* Invocations of the real command.  A record has the invocation, the exit *)
(* status, what the message had in it of what XCli knows, the files whose  *)
(* output is complete, and whether there is any output at all (extra).     *)
(***************************************************************************)
EXTENDS XCli
Recs == ndJsonDeserialize(IOEnv.XV_RECS)
VARIABLES rec, ok
What(r) == {r.says[k] : k \in DOMAIN r.says}
Written(r) == {r.written[k] : k \in DOMAIN r.written}
Judge(r) == /\ Right(r.conf, r.status, What(r), Written(r))
            /\ ~Processes(r.conf) => ~r.extra
TraceInit == /\ rec = 0 /\ ok = TRUE
             /\ conf = Recs[1].conf /\ pc = "" /\ left = {} /\ written = {} /\ status = 0 /\ says = {}
TraceNext == rec < Len(Recs) /\ rec' = rec + 1 /\ ok' = Judge(Recs[rec + 1]) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<rec, ok, conf, pc, left, written, status, says>>
Conforms == ok
Observed == [rec |-> rec, observed |-> IF rec = 0 THEN <<>> ELSE Recs[rec]]
=============================================================================
