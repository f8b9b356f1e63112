------------------------------ MODULE TraceFFA -----------------------------
(* Conformance of recorded FFA transforms (C01) and trial labels (C02) *)
EXTENDS FFA, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Shape(y, m, p) == Len(y) = m /\ \A s \in 1..m : Len(y[s]) = p

\* impulse responses: d[s][i] = drift of input row i in output row s, modulo p (-1: pulse lost or duplicated)
Impulse(e) ==
    IF ~Shape(e.d, e.m, e.m) THEN "shape"
    ELSE IF \E s \in 1..e.m : \E i \in 1..e.m : e.d[s][i] < 0 THEN "pulse lost, duplicated or altered"
    ELSE IF \E s \in 1..e.m : ~RowOK(e.d[s], e.p, 0, e.m, s - 1, 0) THEN "drift"
    ELSE "ok"

\* sampled impulse responses of tall transforms
Sampled(e) ==
    IF \E k \in 1..Len(e.q) : e.q[k][3] < 0 THEN "pulse lost, duplicated or altered"
    ELSE IF \E k \in 1..Len(e.q) : \A d \in DriftSet(e.m, e.q[k][1], e.q[k][2]) : (e.q[k][3] - d) % e.p # 0
         THEN "drift"
    ELSE "ok"

Tall(e) ==
    IF \E k \in 1..Len(e.q) : e.q[k][3] < 0 THEN "pulse lost, duplicated or altered"
    ELSE IF \E k \in 1..Len(e.q) : \A d \in TallDrifts(e.m, e.q[k][1], e.q[k][2]) : (e.q[k][3] - d) % e.p # 0
         THEN "drift"
    ELSE "ok"

\* integer content: every output value
Values(e) ==
    IF ~Shape(e.y, e.m, e.p) THEN "shape"
    ELSE IF ~e.dtype THEN "dtype"
    ELSE IF \E s \in 0..(e.m - 1) : ~HasTie(e.m, s) /\ OutRow(e.x, e.m, e.p, s) # e.y[s + 1] THEN "row sum"
    \* rows with a rounding tie: total flux is conserved whatever the choice
    ELSE IF \E s \in 1..e.m : SumSeq(e.y[s]) # SumF(LAMBDA i : SumSeq(e.x[i]), 1, e.m) THEN "flux"
    ELSE IF ~e.again THEN "second call differs or input modified"
    ELSE "ok"

\* 1-D input: the last N % p samples are ignored
Ffa1(e) ==
    LET m == e.n \div e.p
        rows == [i \in 1..m |-> SubSeq(e.x, (i - 1) * e.p + 1, i * e.p)]
    IN  IF ~Shape(e.y, m, e.p) THEN "shape"
        ELSE IF \E s \in 0..(m - 1) : ~HasTie(m, s) /\ OutRow(rows, m, e.p, s) # e.y[s + 1] THEN "row sum"
        ELSE "ok"

Errors(e) == IF e.out = e.want THEN "ok" ELSE "outcome"

-----------------------------------------------------------------------------
(* Trial labels.  Frequencies arrive as round(f * dt * p^2 (m-1) * k): the exact value is k (p (m-1) - s). *)
Labels(e) ==
    LET m == e.n \div e.p
    IN  IF Len(e.f) # m \/ Len(e.r) # m THEN "count"
        ELSE IF m = 1 THEN (IF Abs(e.f[1] - e.k) <= 1 /\ Abs(e.r[1]) <= 8 THEN "ok" ELSE "single trial")
        ELSE IF \E s \in 0..(m - 1) : Abs(e.f[s + 1] - e.k * (e.p * (m - 1) - s)) > 1 THEN "frequency"
        ELSE IF \E s \in 1..m : Abs(e.r[s]) > 8 THEN "period is not the reciprocal of the frequency"
        ELSE IF ~e.exact0 THEN "first frequency is not 1/(p dt)"
        ELSE "ok"
\* sampled labels of large transforms
LabelsSampled(e) ==
    LET m == e.n \div e.p
    IN  IF e.len # m \/ e.plen # m THEN "count"
        ELSE IF \E k \in 1..Len(e.q) : Abs(e.q[k][2] - e.q[k][4] * (e.p * (m - 1) - e.q[k][1])) > 1 THEN "frequency"
        ELSE IF \E k \in 1..Len(e.q) : Abs(e.q[k][3]) > 8 THEN "period is not the reciprocal of the frequency"
        ELSE "ok"
\* outcome of label requests: valid iff N, p are integers with 1 < p <= N, N > 0, and dt > 0
LabelArgs(e) ==
    LET valid == e.nint /\ e.pint /\ e.n > 0 /\ e.p > 1 /\ e.n >= e.p /\ e.dtpos
    IN  IF valid THEN (IF e.out = "ok" THEN "ok" ELSE "valid request refused")
        ELSE (IF e.out = "ValueError" THEN "ok" ELSE "invalid request not refused with ValueError")

Verdict(e) ==
    CASE e.e = "impulse" -> Impulse(e)
      [] e.e = "sampled" -> Sampled(e)
      [] e.e = "tall" -> Tall(e)
      [] e.e = "values" -> Values(e)
      [] e.e = "ffa1" -> Ffa1(e)
      [] e.e = "errors" -> Errors(e)
      [] e.e = "labels" -> Labels(e)
      [] e.e = "labelss" -> LabelsSampled(e)
      [] e.e = "labelargs" -> LabelArgs(e)
      [] OTHER -> e.e

Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
=============================================================================
