----------------------------- MODULE XTreeTrace -----------------------------
(***************************************************************************)
(* The proto trees that parses of a file of a project leave.  A record has *)
(* the project, the number d of the file, and per language the error and   *)
(* the tree of a parse that generates code, and the error, the tree and    *)
(* the number of written files of one that only extracts.  A tree has what *)
(* the file itself declares, whatever it imports and includes.             *)
(***************************************************************************)
EXTENDS XProject
Recs == ndJsonDeserialize(IOEnv.XV_RECS)
VARIABLES r, judged, diff
tvars == <<r, judged, diff, proj, size, at, count, pc>>
One(rec, l, x, raw) ==
  IF x.err # "" THEN IF MayFail(rec.files, rec.d) THEN {} ELSE {<<"error", l, x.err>>}
  ELSE TreeDiff(l, x.tree, raw, LAMBDA s : StepNames(rec.files, rec.d, l, s))
(* The known finding extract-homonym: a parse that only extracts looks for   *)
(* the imported type of a local component among the local ones of its name.  *)
RECURSIVE Confused(_, _, _, _)
Confused(rec, l, S, n) ==
  LET more == S \cup UNION {StepNames(rec.files, rec.d, l, m) : m \in S} IN
  IF n = 0 \/ more = S THEN S ELSE Confused(rec, l, more, n - 1)
Loose(rec, l, x, raw) ==
  TreeDiff(l, x.tree, raw, LAMBDA s : Confused(rec, l, StepNames(rec.files, rec.d, l, s), 5))
Extracting(rec, l, raw) ==
  LET D == One(rec, l, rec.ext[l], raw) IN
  IF D # {} /\ rec.ext[l].err = "" /\ Loose(rec, l, rec.ext[l], raw) = {}
  THEN IF PrintT("XV-KNOWN extract-homonym") THEN {} ELSE {}
  ELSE {<<"extracting", e>> : e \in D}
Judge(rec) ==
  LET raw == TLCEval(TreeIn(rec.files, rec.d)) IN
  UNION {{<<"generating", e>> : e \in One(rec, l, rec.gen[l], raw)} \cup Extracting(rec, l, raw)
         \cup (IF rec.ext[l].wrote > 0 THEN {<<"extracting writes files", l>>} ELSE {}) : l \in DOMAIN rec.gen}
TraceInit == Init /\ size = 2 /\ r \in 1..Len(Recs) /\ judged = FALSE /\ diff = {}
TraceNext == ~judged /\ judged' = TRUE /\ diff' = Judge(Recs[r]) /\ UNCHANGED <<r, vars>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diff = {}
Shown == [rec |-> r, diff |-> diff]
=============================================================================
