---------------------------- MODULE XProjectTrace ----------------------------
(***************************************************************************)
(* Runs of the real code on a file of a project (see XProject).  A record  *)
(* has the project, the number d of the file, the errors and declarations  *)
(* per language, and the names of other generated files that aren't what   *)
(* a run on the respective file alone gives (strays).                      *)
(***************************************************************************)
EXTENDS XProject
Recs == ndJsonDeserialize(IOEnv.XV_RECS)
VARIABLES r, judged, diff
tvars == <<r, judged, diff, proj, size, at, count, pc>>
Judge(rec) ==
  IF MustFail(rec.files, rec.d) THEN {<<"no error", l>> : l \in {x \in Langs : rec.err[x] = ""}}
  ELSE IF MayFail(rec.files, rec.d) THEN {}
  ELSE LET ex == ExpectIn(rec.files, rec.d) IN
       Errs(rec) \cup DiffC01(rec, ex) \cup DiffC02(rec, ex) \cup DiffC03(rec, ex) \cup DiffC04(rec, ex) \cup DiffC07(rec, ex)
       \cup {<<"another result for", s>> : s \in Range_(rec.strays)}
TraceInit == Init /\ size = 2 /\ r \in 1..Len(Recs) /\ judged = FALSE /\ diff = {}
TraceNext == ~judged /\ judged' = TRUE /\ diff' = Judge(Recs[r]) /\ UNCHANGED <<r, vars>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diff = {}
Shown == [rec |-> r, diff |-> diff]
=============================================================================
