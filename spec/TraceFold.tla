------------------------------ MODULE TraceFold -----------------------------
(* Conformance of recorded folds (C07) *)
EXTENDS Fold, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* Number of full periods.  When the data hold a whole number of periods but for the rounding of the inputs, which
\* may also be just missed, e.strict tells that the quotient of the data length and the period is a whole number.
Periods(e) ==
    LET m == FullPeriods(e.n, e.num, e.den, e.b)
        whole == (e.n * e.den) % (e.num * e.b) = 0
    IN  IF whole /\ ~e.strict THEN {m, m - 1} ELSE {m}

Shape(e, m) == IF e.sub = 1 \/ m = 1 THEN <<e.b>> ELSE IF e.sub = -1 THEN <<m, e.b>> ELSE <<e.sub, e.b>>
Rows(e, m) == IF e.sub = -1 THEN m ELSE e.sub

\* e.y[k][j] = round(16 den r sqrt(m f) * value)
Tol(e, m, r) == 4 + (e.den * r * 4 * e.amp * m * (1 + e.num \div e.den)) \div 262144
RowOK(e, m, r, k) ==
    LET x == TLCEval(e.x) IN
    \A j \in 0..(e.b - 1) :
        Abs(e.y[k + 1][j + 1] - 16 * FoldedBin(x, e.num, e.den, e.b, m, r, k, j)) <= Tol(e, m, r)
Folded(e) ==
    IF e.m \notin Periods(e) THEN "number of periods"
    ELSE LET m == e.m r == Rows(e, m) IN
         IF e.out # "ok"
         THEN (IF e.out = "ValueError" /\ Cardinality(Periods(e)) > 1 /\ (e.m = 0 \/ e.sub > e.m - 1) THEN "ok" ELSE "valid request refused")
         ELSE IF e.shape # Shape(e, m) THEN "shape"
         ELSE IF \E k \in 0..(Len(e.y) - 1) : ~RowOK(e, m, r, k) THEN "values"
         ELSE IF ~e.pure THEN "time series modified, or result not repeatable"
         ELSE "ok"

Args(e) ==
    LET m == FullPeriods(e.n, e.num, e.den, e.b)
        valid == m >= 1 /\ ValidBins(e.num, e.den) /\ (e.sub = -1 \/ ValidSubints(e.sub, m))
    IN  IF valid THEN (IF e.out = "ok" THEN "ok" ELSE "valid request refused")
        ELSE (IF e.out = "ValueError" THEN "ok" ELSE "invalid request not refused with ValueError")

Verdict(e) ==
    CASE e.e = "fold" -> Folded(e)
      [] e.e = "args" -> Args(e)
      [] OTHER -> e.e

Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
=============================================================================
