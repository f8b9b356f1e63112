----------------------------- MODULE TraceBoxcar ----------------------------
(* Conformance of recorded boxcar S/N values (C04) *)
EXTENDS Boxcar, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* one profile x, widths ws, observed q[i] = round(snr * stdnoise * sqrt(n w (n - w)) * 16)
Tol(x, w) == 1 + (Len(x) * Abs(MaxWindow(x, w)) + w * Abs(SumSeq(x))) \div 8192
Profile(x, ws, q) == \A i \in 1..Len(ws) : Abs(q[i] - 16 * Score(x, ws[i])) <= Tol(x, ws[i])

\* leading shape preserved, one trailing axis of widths, every profile on its own
Block(e) ==
    IF ~ \A i \in 1..Len(e.ws) : ValidWidth(e.ws[i], e.n) THEN "invalid widths accepted"
    ELSE IF e.oshape # e.ishape \o <<Len(e.ws)>> THEN "shape"
    ELSE IF Len(e.q) # Len(e.x) THEN "number of profiles"
    ELSE IF \E r \in 1..Len(e.x) : ~Profile(e.x[r], e.ws, e.q[r]) THEN "S/N"
    ELSE IF ~e.pure THEN "input modified, or result not repeatable"
    ELSE "ok"

Args(e) ==
    LET valid == (\A i \in 1..Len(e.ws) : ValidWidth(e.ws[i], e.n)) /\ e.stdpos
    IN  IF valid THEN (IF e.out = "ok" THEN "ok" ELSE "valid request refused")
        ELSE (IF e.out = "ValueError" THEN "ok" ELSE "invalid request not refused cleanly")

Verdict(e) ==
    CASE e.e = "block" -> Block(e)
      [] e.e = "layout" -> (IF e.out \in {"ValueError", "TypeError"} THEN "ok" ELSE "unusual memory layout neither accepted nor refused cleanly")
      [] e.e = "args" -> Args(e)
      [] OTHER -> e.e

Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
=============================================================================
