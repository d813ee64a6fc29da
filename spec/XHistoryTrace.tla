---------------------------- MODULE XHistoryTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the real code.  A record is one parse: the task   *)
(* t, the process p, what was on disk before (d), the error and what is on *)
(* disk afterwards: a digest of the output, or "untouched".  There has to  *)
(* be a function from tasks to results that all parses agree with; memo    *)
(* holds what is known of it.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.XV_RECS)
VARIABLES rec, memo, ok
vars == <<rec, memo, ok>>
Init == rec = 0 /\ memo = [t \in {} |-> ""] /\ ok = TRUE
Result(r) == [err |-> r.err, out |-> r.out]
Next == /\ rec < Len(Recs)
        /\ rec' = rec + 1
        /\ LET r == Recs[rec + 1] IN
           IF r.t \in DOMAIN memo THEN ok' = (memo[r.t] = Result(r)) /\ UNCHANGED memo
           ELSE /\ memo' = (r.t :> Result(r)) @@ memo
                (* a task that should end well does, another one fails *)
                /\ ok' = ((r.ends = "well") <=> (r.err = ""))
Spec == Init /\ [][Next]_vars
FunctionOfInput == ok
Alias == [rec |-> rec, result |-> IF rec = 0 THEN <<>> ELSE Result(Recs[rec]),
          before |-> IF rec # 0 /\ Recs[rec].t \in DOMAIN memo THEN memo[Recs[rec].t] ELSE <<>>]
=============================================================================
