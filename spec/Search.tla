------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The trial grid of a periodogram.                                        *)
(*                                                                         *)
(* Periods are in units of the sampling time.  A request is                *)
(*    n            number of samples                                       *)
(*    an / ad      shortest period                                         *)
(*    cn / cd      longest period (after the cap  n / fpmin)               *)
(*    b0, b1       smallest and largest number of phase bins               *)
(* Stage k = 0, 1, ... resamples the data by  f = an/(ad b0) ((b1+1)/b0)^k *)
(* and transforms them with b = b0 .. b1 bins; the FFA of m = floor(n/f)   *)
(* div b rows has the trial periods  f b^2 (m-1) / (b (m-1) - s).          *)
(* Numbers are exact: see Big.                                             *)
(***************************************************************************)
EXTENDS Big

StageOf(r, fn, fd) ==
    LET nfd == BMulI(fd, r.n)
        q == BDiv(nfd, fn, r.n)                               \* floor(n / f)
    IN  [fn |-> fn, fd |-> fd, q |-> q, nfd |-> nfd,
         pn |-> BMul(r.cn, fd), pd |-> BMul(r.cd, fn)]        \* longest period, in resampled bins

FirstStage(r) == StageOf(r, r.an, BMulI(r.ad, r.b0))
NextStage(r, st) == StageOf(r, BMulI(st.fn, r.b1 + 1), BMulI(st.fd, r.b0))

\* floating point may round a factor so that n / f crosses an integer
EXACTBITS == 8
ExactFactor(st) == LET x == B2(st.fn, EXACTBITS) IN Len(st.fd) <= 2 /\ Len(st.fn) <= 2 /\ BMulI(st.fd, BDiv(x, st.fd, 1073741823)) = x
Sizes(r, st) ==
    IF ExactFactor(st) THEN {st.q}
    ELSE {st.q}
         \cup (IF st.q > 0 /\ BNear(st.nfd, BMulI(st.fn, st.q), 40) THEN {st.q - 1} ELSE {})
         \cup (IF BNear(st.nfd, BMulI(st.fn, st.q + 1), 40) THEN {st.q + 1} ELSE {})

\* stages go on while their base period is below the longest period (near ties: at most one trial, see below)
StageRuns(r, st) == LET y == BMulI(st.pd, r.b0) IN BLt(y, st.pn) \/ BNear(st.pn, y, 40)

\* Number of trials kept for m rows of b bins: those below the longest period and below b + 1 bins.
\* Set of the possible values: more than one only if a trial is within 2^-22 of a step of that limit.
Kept(st, m, b) ==
    LET capped == BLt(st.pn, BMulI(st.pd, b + 1))
        pn == IF capped THEN st.pn ELSE BInt(b + 1)
        pd == IF capped THEN st.pd ELSE <<1>>
        bp == BMulI(pd, b)
    IN  IF m <= 1 THEN {0}
        ELSE IF BLe(pn, bp) THEN (IF BNear(bp, pn, 40) THEN {0, 1} ELSE {0})
        ELSE LET num == BMulI(BSub(pn, bp), b * (m - 1))      \* b (m-1) (1 - b/p), over pn
                 q == BDiv(num, pn, m)
                 rem == BSub(num, BMulI(pn, q))
                 lo == BLe(B2(rem, 22), pn)
                 hi == BLe(B2(BSub(pn, rem), 22), pn)
             IN  {Min2(x, m) : x \in (IF rem = <<>> THEN {q} ELSE {q + 1})
                                     \cup (IF lo THEN {q, q + 1} ELSE {}) \cup (IF hi THEN {q + 1, q + 2} ELSE {})}

\* x = period * 2^45 (rounded)
PeriodOK(st, m, b, s, x) ==
    BNear(BMulI(BMul(x, st.fd), b * (m - 1) - s), B2(BMulI(BMulI(st.fn, b * b), m - 1), 45), 42)
=============================================================================
