----------------------------- MODULE XConcurrent -----------------------------
(***************************************************************************)
(* Parsers of one process that run at the same time.  A parser reads its   *)
(* document piece by piece (Feed), with everything it knows in its own     *)
(* options; when the document ends (Close) it generates code.  That needs  *)
(* the table of names in use, which the parsers share: it is cleared, then *)
(* each name is looked up and counted.  A lock is held meanwhile; a parser *)
(* that can't write its file gives it back as well (End).                  *)
(*   XV_TASKS     what the parsers do: [names, pieces, ends]; ends is      *)
(*                "well", "reading" (fails while reading) or "writing"     *)
(*   XV_LOCK      "lock", "nolock": the model of a generator without the   *)
(*                lock, for which Alone and NoRace don't hold; "leak": one *)
(*                that keeps it when it fails, for which AllEnd doesn't    *)
(*   XV_SCHEDULES "yes": no steps of the generation; every schedule of     *)
(*                pieces, ends of documents and ends of parses is printed, *)
(*                the harness makes the real code follow it                *)
(***************************************************************************)
EXTENDS XNames, TLC, Json, IOUtils

Tasks     == ndJsonDeserialize(IOEnv.XV_TASKS)
LockMode  == IOEnv.XV_LOCK
Schedules == IOEnv.XV_SCHEDULES = "yes"
P == 1..Len(Tasks)

VARIABLES pc,      \* read, generate, clear, look, count, write, done
          fed,     \* pieces read
          used,    \* the shared table: names in use, in the order they came
          holder,  \* of the lock, 0 when it is free
          i,       \* the name a parser is at
          seen,    \* the table as it saw it
          ids,     \* the identifiers it gave
          sched    \* the schedule so far
vars == <<pc, fed, used, holder, i, seen, ids, sched>>

Init == /\ pc = [p \in P |-> "read"] /\ fed = [p \in P |-> 0] /\ used = <<>> /\ holder = 0
        /\ i = [p \in P |-> 1] /\ seen = [p \in P |-> <<>>] /\ ids = [p \in P |-> <<>>] /\ sched = <<>>

Note(op, p) == sched' = IF Schedules THEN Append(sched, [op |-> op, p |-> p]) ELSE sched
Step(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]

Feed(p) == /\ pc[p] = "read" /\ fed[p] < Tasks[p].pieces
           /\ fed' = [fed EXCEPT ![p] = @ + 1]
           /\ Note("feed", p)
           /\ UNCHANGED <<pc, used, holder, i, seen, ids>>
Close(p) == /\ fed[p] = Tasks[p].pieces
            /\ Step(p, "read", IF Tasks[p].ends = "reading" THEN "write" ELSE IF Schedules THEN "write" ELSE "generate")
            /\ Note("close", p)
            /\ UNCHANGED <<fed, used, holder, i, seen, ids>>
Acquire(p) == /\ Step(p, "generate", "clear")
              /\ LockMode = "nolock" \/ holder = 0
              /\ holder' = IF LockMode = "nolock" THEN holder ELSE p
              /\ UNCHANGED <<fed, used, i, seen, ids, sched>>
Clear(p) == /\ Step(p, "clear", IF Tasks[p].names = <<>> THEN "write" ELSE "look")
            /\ used' = <<>>
            /\ UNCHANGED <<fed, holder, i, seen, ids, sched>>
Look(p) == /\ Step(p, "look", "count")
           /\ seen' = [seen EXCEPT ![p] = used]
           /\ UNCHANGED <<fed, used, holder, i, ids, sched>>
Count(p) == LET all == Unique(Append(seen[p], Tasks[p].names[i[p]])) IN
            /\ Step(p, "count", IF i[p] < Len(Tasks[p].names) THEN "look" ELSE "write")
            /\ used' = Append(seen[p], Tasks[p].names[i[p]])
            /\ ids' = [ids EXCEPT ![p] = Append(@, all[Len(all)])]
            /\ i' = [i EXCEPT ![p] = @ + 1]
            /\ UNCHANGED <<fed, holder, seen, sched>>
End(p) == /\ Step(p, "write", "done")
          /\ holder' = IF holder = p /\ ~(LockMode = "leak" /\ Tasks[p].ends = "writing") THEN 0 ELSE holder
          /\ Note("end", p)
          /\ UNCHANGED <<fed, used, i, seen, ids>>
Next == \E p \in P : Feed(p) \/ Close(p) \/ Acquire(p) \/ Clear(p) \/ Look(p) \/ Count(p) \/ End(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Each gives the identifiers that it gives alone.                           *)
Alone == \A p \in P : pc[p] = "done" /\ ~Schedules /\ Tasks[p].ends # "reading" => ids[p] = Unique(Tasks[p].names)
(* The table isn't written while another parser uses it.                     *)
NoRace == \A p, q \in P : p # q /\ pc[p] \in {"clear", "look", "count"} => pc[q] \notin {"clear", "look", "count"}
AllDone == \A p \in P : pc[p] = "done"
AllEnd == <>AllDone
Told == Schedules /\ AllDone => PrintT("XV-SCHED " \o ToJson(sched))
=============================================================================
