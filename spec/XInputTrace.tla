---------------------------- MODULE XInputTrace ----------------------------
(***************************************************************************)
(* Runs of the real code on texts.  A record has the index of the tokens,  *)
(* the token j in which the text ends and how much of it is there (0, 0 for *)
(* texts that aren't from XInput: any outcome but a crash is fine), and the *)
(* outcomes seen: "ok", "error", "crash", "hang" or "nothing written".      *)
(***************************************************************************)
EXTENDS XInput
Texts == ndJsonDeserialize(IOEnv.XV_TEXTS)
Recs == ndJsonDeserialize(IOEnv.XV_RECS)
VARIABLES r, judged, wrong
tvars == <<r, judged, wrong, toks, st, faults, size, pc>>
VerdictOf(rec) == IF rec.text = 0 THEN "may" ELSE IF rec.j = 0 THEN Verdict(Texts[rec.text]) ELSE VerdictCut(Texts[rec.text], rec.j, rec.c)
Allowed(v) == CASE v = "must" -> {"error"} [] v = "may" -> {"ok", "error"} [] v = "ok" -> {"ok"}
Judge(rec) == LET a == Allowed(VerdictOf(rec)) IN {rec.outcomes[i] : i \in DOMAIN rec.outcomes} \ a
TraceInit == toks = <<>> /\ st = Begin /\ faults = 0 /\ size = 0 /\ pc = "trace" /\ r \in 1..Len(Recs) /\ judged = FALSE /\ wrong = {}
TraceNext == ~judged /\ judged' = TRUE /\ wrong' = Judge(Recs[r]) /\ UNCHANGED <<r, vars>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == wrong = {}
Shown == [rec |-> r, outcomes |-> wrong, verdict |-> IF judged THEN VerdictOf(Recs[r]) ELSE ""]
=============================================================================
