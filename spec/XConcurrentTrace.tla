-------------------------- MODULE XConcurrentTrace --------------------------
(***************************************************************************)
(* Recorded schedules of the real code, see XConcurrent.  A record is a    *)
(* group of parsers that ran together: ts are their tasks, each in n       *)
(* pieces, and evs what happened, in order: a piece fed to p, document of  *)
(* p closed, p ended with this result; "race" is a report of the race      *)
(* detector, "stuck" the end of the harness' patience.  Free groups had no *)
(* schedule: their parsers were let loose together.  A task's alone is the *)
(* result of a parser that is alone in its process.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Tasks == ndJsonDeserialize(IOEnv.XV_TASKS)
Recs  == ndJsonDeserialize(IOEnv.XV_RECS)
VARIABLES rec, ev, pc, fed, ok
vars == <<rec, ev, pc, fed, ok>>

Fresh(r) == [p \in 1..Len(Recs[r].ts) |-> "read"]
Zero(r)  == [p \in 1..Len(Recs[r].ts) |-> 0]
Init == rec = 1 /\ ev = 0 /\ ok = (Recs # <<>>) 
        /\ pc = (IF Recs = <<>> THEN <<>> ELSE Fresh(1))
        /\ fed = (IF Recs = <<>> THEN <<>> ELSE Zero(1))

TaskOf(p) == Tasks[Recs[rec].ts[p]]
Allowed(e) ==
  CASE e.op = "feed"  -> pc[e.p] = "read" /\ fed[e.p] < Recs[rec].n
    [] e.op = "close" -> pc[e.p] = "read" /\ (Recs[rec].free \/ fed[e.p] = Recs[rec].n)
    [] e.op = "end"   -> pc[e.p] = "write" /\ e.res = TaskOf(e.p).alone
    [] OTHER          -> FALSE
Event == /\ ok /\ rec <= Len(Recs) /\ ev < Len(Recs[rec].evs)
         /\ LET e == Recs[rec].evs[ev + 1] IN
            /\ ok' = Allowed(e)
            /\ fed' = IF e.op = "feed" THEN [fed EXCEPT ![e.p] = @ + 1] ELSE fed
            /\ pc' = CASE e.op = "close" -> [pc EXCEPT ![e.p] = "write"]
                       [] e.op = "end"   -> [pc EXCEPT ![e.p] = "done"]
                       [] OTHER          -> pc
         /\ ev' = ev + 1 /\ UNCHANGED rec
(* All have ended.                                                           *)
NextRec == /\ ok /\ rec <= Len(Recs) /\ ev = Len(Recs[rec].evs)
           /\ ok' = (\A p \in DOMAIN pc : pc[p] = "done")
           /\ IF ok' /\ rec < Len(Recs)
              THEN rec' = rec + 1 /\ ev' = 0 /\ pc' = Fresh(rec + 1) /\ fed' = Zero(rec + 1)
              ELSE /\ rec' = (IF ok' THEN rec + 1 ELSE rec) /\ UNCHANGED <<ev, pc, fed>>
Next == Event \/ NextRec
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
