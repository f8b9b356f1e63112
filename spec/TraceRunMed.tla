----------------------------- MODULE TraceRunMed ----------------------------
(* Conformance of recorded running medians and dereddened series (C08) *)
EXTENDS RunMed, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Exact(e) ==
    IF ~ValidWindow(e.x, e.w) THEN (IF e.out = "ValueError" THEN "ok" ELSE "invalid window not refused with ValueError")
    ELSE IF e.out # "ok" THEN "valid window refused"
    ELSE IF Len(e.y) # Len(e.x) THEN "length"
    ELSE IF \E i \in 1..Len(e.y) : ~IsMedian(e.x, e.w, i - 1, e.y[i]) THEN "not the median"
    ELSE IF ~e.pure THEN "input modified, or result not repeatable"
    ELSE "ok"

\* e.y[i] = round(2 sf^2 * 64 * fast median of sample i); with e.sub, of the data minus it
Value(x, w, minpts) ==
    LET sf == Scrunch(w, minpts)
        grp == TLCEval(Groups(x, sf))
        win == IF sf = 1 THEN w ELSE minpts
        \* medians of the group sums, and the samples' interpolated values
        r == TLCEval([g \in 1..Len(grp) |-> Median(grp, win, g - 1)])
    IN  TLCEval([i \in 1..Len(x) |-> IF sf = 1 THEN 2 * r[i] ELSE Interp(r, sf, i - 1)])
Fast(e) ==
    LET w == IF e.wnum = 0 THEN e.w ELSE (2 * e.wnum + e.wden) \div (2 * e.wden)      \* seconds to samples, rounded
        sf == Scrunch(w, e.minpts)
    IN  IF ~ValidFast(e.x, w, e.minpts) THEN (IF e.out = "ValueError" THEN "ok" ELSE "invalid request not refused with ValueError")
        ELSE IF e.out # "ok" THEN "valid request refused"
        ELSE IF Len(e.y) # Len(e.x) THEN "length"
        ELSE LET v == Value(e.x, w, e.minpts) IN
             IF \E i \in 1..Len(e.x) :
                   Abs(e.y[i] - 64 * (IF e.sub THEN 2 * sf * sf * e.x[i] - v[i] ELSE v[i])) > 2 + (2 * sf * sf * e.amp) \div 4096
             THEN (IF e.sub THEN "dereddened data" ELSE "fast running median")
             ELSE IF ~e.pure THEN "input modified, or result not repeatable"
             ELSE "ok"

Verdict(e) ==
    CASE e.e = "exact" -> Exact(e)
      [] e.e = "fast" -> Fast(e)
      [] OTHER -> e.e

Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
=============================================================================
