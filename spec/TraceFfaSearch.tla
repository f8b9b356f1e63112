---------------------------- MODULE TraceFfaSearch ----------------------------
(* Conformance of ffa_search (C10) *)
EXTENDS FfaSearch, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* e.cand: identities (up to rounding) of the input after each possible list of stages
Wanted(e) ==
    LET s == Stages(e.dered, e.already)
    IN  IF s = <<>> THEN e.cand.raw
        ELSE IF s = <<"deredden">> THEN e.cand.d
        ELSE IF s = <<"normalise">> THEN e.cand.n
        ELSE e.cand.dn
Search(e) ==
    IF e.in0 # e.in1 THEN "input modified"
    ELSE IF e.ret # Wanted(e) \/ e.tsamp # "same" THEN "returned series is not the input pre-processed as requested"
    ELSE IF e.again # e.pgram THEN "periodogram is not that of the returned series"
    ELSE IF ~e.meta THEN "metadata of the periodogram are not those of the series"
    ELSE IF e.tob \notin -1..1 THEN "tobs"
    ELSE IF ~IsWidths(e.ws, e.b0, e.dn, e.dd, e.wn, e.wd) THEN "width trials"
    ELSE IF e.cols # Len(e.ws) THEN "one column of S/N per width"
    ELSE "ok"
Widths(e) == IF IsWidths(e.ws, e.b0, e.dn, e.dd, e.wn, e.wd) THEN "ok" ELSE "width trials"

Verdict(e) ==
    CASE e.e = "search" -> Search(e)
      [] e.e = "defaults" -> (IF e.full = e.left THEN "ok" ELSE "options that are left out do not take their documented values")
      [] e.e = "widths" -> Widths(e)
      [] OTHER -> e.e

Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
