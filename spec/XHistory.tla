------------------------------ MODULE XHistory ------------------------------
(***************************************************************************)
(* Histories of parses in processes.  A task is a schema file in a target  *)
(* language; names are those it declares, in order, and ends says whether  *)
(* it ends well, fails while reading or never starts.  What one process    *)
(* has in memory from parse to parse is the table of the names in use      *)
(* (counts); what is on disk is the output of earlier runs (disk: nothing, *)
(* the same file, something longer, something else).                       *)
(*   XV_TASKS   the tasks (ndJson)                                         *)
(*   XV_WINDOW  how many of the last parses of a process make a state      *)
(*   XV_RESET   "yes"; "no" is the model of a generator that keeps its     *)
(*              table, for which FunctionOfInput doesn't hold              *)
(* Every transition is printed: the harness makes a tour that takes all of *)
(* them in the real code, see XHistoryTrace.                               *)
(***************************************************************************)
EXTENDS XNames, TLC, Json, IOUtils

Tasks  == ndJsonDeserialize(IOEnv.XV_TASKS)
Window == CHOOSE n \in 0..5 : ToString(n) = IOEnv.XV_WINDOW
Reset  == IOEnv.XV_RESET = "yes"
Disks  == {"nothing", "same", "longer", "other"}

VARIABLES res,      \* the last tasks of this process
          counts,   \* the names in use, as a sequence, since the table was cleared
          out       \* [t: task, ids: identifiers] of the last parse
vars == <<res, counts, out>>

None == [t |-> 0, ids |-> <<>>]
Init == res = <<>> /\ counts = <<>> /\ out = None

(* Identifiers of the names ns in a generator that knows the names in use.   *)
Numbered(used, ns) == LET all == Unique(used \o ns) IN SubSeq(all, Len(used) + 1, Len(all))
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

Parse(t, d) ==
  LET used == IF Reset THEN <<>> ELSE Last(counts, 12)
      ns   == IF Tasks[t].ends = "well" THEN Tasks[t].names ELSE <<>>
  IN /\ res' = Last(Append(res, t), Window)
     /\ counts' = IF Tasks[t].ends = "well" THEN used \o ns ELSE counts
     /\ out' = [t |-> t, ids |-> Numbered(used, ns)]
     /\ PrintT("XV-EDGE " \o ToJson([from |-> res, t |-> t, d |-> d]))
Restart == /\ res # <<>>
           /\ res' = <<>> /\ counts' = <<>> /\ out' = None
Next == (\E t \in 1..Len(Tasks) : \E d \in Disks : Parse(t, d)) \/ Restart
Spec == Init /\ [][Next]_vars

(* What comes out depends on the task only.                                  *)
FunctionOfInput ==
  out.t # 0 => out.ids = Numbered(<<>>, IF Tasks[out.t].ends = "well" THEN Tasks[out.t].names ELSE <<>>)
View == res
=============================================================================
