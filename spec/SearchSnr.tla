------------------------------ MODULE SearchSnr -----------------------------
(***************************************************************************)
(* S/N of the trials of a periodogram: boxcar S/N (Boxcar) of the rows of  *)
(* the FFA transform (FFA) of the data resampled (Downsample) by the       *)
(* stage's factor f, over the noise level sqrt(m var), m rows being added  *)
(* up, with var the variance of a resampled unit-variance noise sample.    *)
(***************************************************************************)
EXTENDS Search, FFA, Downsample, Boxcar, TLC

RECURSIVE BVal(_)
BVal(a) == IF a = <<>> THEN 0 ELSE a[1] + BASE * BVal(Tail(a))              \* small numbers only

\* fd times the resampled data
Resampled(x, st) ==
    LET num == BVal(st.fn) den == BVal(st.fd)
    IN  [k \in 1..OutSize(Len(x), num, den) |-> Integral(x, 0, num, den, k - 1)]

(* Variance of a resampled sample of unit-variance noise, as <<numerator, denominator>>.  Let k be the integer nearest to f
   and r = |f - k|: the overlaps at the ends of the resampled samples drift by r per sample, hence over n samples by
   x = n r of a sample.  Beyond x = 1 they average out to a variance f - 1/3, below they give k + 2/3 x^2 - x on average,
   that is f for an integer factor (see MC_Noise).  fn / fd is the factor; f >= 1. *)
VarianceAveraged(fn, fd) == <<BSub(BMulI(fn, 3), fd), BMulI(fd, 3)>>
VarianceDrifting(fd, k, xn) ==
    <<BSub(BAdd(BMulI(BMul(fd, fd), 3 * k), BMulI(BMul(xn, xn), 2)), BMulI(BMul(xn, fd), 3)), BMulI(BMul(fd, fd), 3)>>
Variances(fn, fd, n, size) ==
    LET k == BDiv(BAdd(B2(fn, 1), fd), B2(fd, 1), size + 1)                 \* nearest integer
        xn == BMulI(BDist(fn, BMulI(fd, k)), n)                             \* x = xn / fd
        far == BLt(fd, xn)
    IN  IF BNear(xn, fd, 40) /\ xn # fd THEN {VarianceAveraged(fn, fd), VarianceDrifting(fd, k, xn)}
        ELSE IF far THEN {VarianceAveraged(fn, fd)} ELSE {VarianceDrifting(fd, k, xn)}

\* all numbers in 1 / 4096
Tol(q) == 4 + q \div 8192
\* num / den is the square of the signal over the noise, times 4096^2
Close(q, num, den) ==
    LET lo == BInt(Max2(0, q - Tol(q))) hi == BInt(q + Tol(q))
    IN  /\ BLe(BMul(BMul(lo, lo), den), num)
        /\ BLe(num, BMul(BMul(hi, hi), den))

\* exact value from the data
SnrOK(r, st, n, D, m, b, s, ws, q) ==
    LET rows == TLCEval([i \in 1..m |-> SubSeq(D, (i - 1) * b + 1, i * b)])
        prof == TLCEval(OutRow(rows, m, b, s))
        fd == BVal(st.fd)
    IN  /\ Len(q) = Len(ws)
        /\ \E var \in TLCEval(Variances(st.fn, st.fd, n, r.n)) : \A i \in 1..Len(ws) :
            LET w == ws[i]
                sc == BInt(Score(prof, w))
                \* (score / fd)^2 / (b w (b - w) m var)
                num == B2(BMul(BMul(sc, sc), var[2]), 24)
                den == BMulI(BMul(BMul(st.fd, st.fd), var[1]), b * w * (b - w) * m)
            IN  q[i] >= -4 /\ Close(Max2(0, q[i]), num, den)

\* against the S/N y of the same row with unit noise: y^2 = q^2 m var
SnrSame(r, st, n, m, q, y) ==
    /\ Len(q) = Len(y)
    /\ \E var \in TLCEval(Variances(st.fn, st.fd, n, r.n)) : \A i \in 1..Len(q) :
        LET Y == BInt(Max2(0, y[i])) IN
        q[i] >= -4 /\ Close(Max2(0, q[i]), BMul(BMul(Y, Y), var[2]), BMulI(var[1], m))
=============================================================================
