--------------------------- MODULE TraceDownsample --------------------------
(* Conformance of recorded downsampling calls (C03) *)
EXTENDS Downsample, Big, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* e.y = round(output * den * 16); e.exact: the factor is exactly representable, so floor(size / f) has no rounding
SizeOK(e, n) ==
    LET want == OutSize(e.size, e.num, e.den)
    IN  n = want \/ (~e.exact /\ (e.size * e.den) % e.num = 0 /\ n = want - 1)
Full(e) ==
    IF ~ValidFactor(e.size, e.num, e.den) THEN "invalid factor accepted"
    ELSE IF ~SizeOK(e, Len(e.y)) THEN "size"
    ELSE IF ~e.dtype THEN "dtype"
    ELSE IF \E k \in 0..(Len(e.y) - 1) : Abs(e.y[k + 1] - 16 * Integral(e.x, 0, e.num, e.den, k)) > 2 THEN "integral"
    ELSE IF ~e.pure THEN "input modified, or result not repeatable"
    ELSE "ok"

\* long series: sampled outputs q = <<k, first sample of window, window, observed>>
Sampled(e) ==
    IF ~SizeOK(e, e.n) THEN "size"
    ELSE IF \E j \in 1..Len(e.q) :
              LET s == e.q[j] IN
              Abs(s.y - 16 * Integral(s.x, s.i0, e.num, e.den, s.k)) > 2
         THEN "integral" ELSE "ok"

\* factor given as num / den (or not a number)
Args(e) ==
    LET valid == ~e.nan /\ ValidFactor(e.size, e.num, e.den)
    IN  IF valid THEN (IF e.out = "ok" THEN "ok" ELSE "valid factor refused")
        ELSE (IF e.out = "ValueError" THEN "ok" ELSE "invalid factor not refused with ValueError")

\* number of outputs for a factor num / den given exactly (big numbers); a quotient that rounds to the next integer in
\* double precision (within 2^-50 of it) may count as that integer
OutCount(e) ==
    LET sd == TLCEval(BMulI(e.den, e.size)) IN
    IF BLe(BMulI(e.num, e.n), sd) /\ BLt(sd, BMulI(e.num, e.n + 1)) THEN "ok"
    ELSE IF BNear(sd, BMulI(e.num, e.n), 50) \/ BNear(sd, BMulI(e.num, e.n + 1), 50) THEN "ok"
    ELSE "number of output samples"

Verdict(e) ==
    CASE e.e = "full" -> Full(e)
      [] e.e = "sampled" -> Sampled(e)
      [] e.e = "args" -> Args(e)
      [] e.e = "count" -> OutCount(e)
      [] OTHER -> e.e

Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
=============================================================================
