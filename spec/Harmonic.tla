------------------------------ MODULE Harmonic ------------------------------
(* Harmonic test between two signals (C13; used by C14).
   Frequencies are a and b units (b >= a: the faster), unit = 1/fu Hz.  All quantities are exact rationals. *)
EXTENDS Big, FiniteSets

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(p, q) == LET g == Gcd(p, q) IN <<p \div g, q \div g>>

\* distance of p/q from b/a is Dev/(q a)
Dev(a, b, f) == Abs(f[1] * a - f[2] * b)
Nearest(a, b, q) == {<<p, q>> : p \in {(b * q) \div a, (b * q) \div a + 1}}
Closer(a, b, f, g) == Dev(a, b, f) * g[2] < Dev(a, b, g) * f[2]
\* fractions p/q with q <= dmax closest to b/a, in lowest terms (more than one when two are equally close)
RECURSIVE BestUpTo(_, _, _)
BestUpTo(a, b, q) ==
    LET cand == Nearest(a, b, q)
        old == IF q = 1 THEN cand ELSE TLCEval(BestUpTo(a, b, q - 1))
        all == TLCEval(old \union cand)
    IN  {f \in all : \A g \in all : ~Closer(a, b, g, f)}
IsClosest(a, b, dmax, f) ==
    /\ f[1] >= 0 /\ f[2] \in 1..dmax /\ Gcd(f[1], f[2]) = 1
    /\ \A q \in 1..dmax : LET lo == (b * q) \div a IN ~Closer(a, b, <<lo, q>>, f) /\ ~Closer(a, b, <<lo + 1, q>>, f)
Closest(a, b, dmax) == TLCEval({Reduced(f[1], f[2]) : f \in BestUpTo(a, b, dmax)})

(* Three-valued comparisons: "yes", "no", or "tie" when the two sides agree to 2^-30, where floating point may decide
   either way unless the arithmetic is exact. *)
Le(x, y, exact) == IF ~exact /\ (BNear(x, y, 30) \/ BNear(y, x, 30)) /\ x # y THEN "tie"
                   ELSE IF ~exact /\ x = y /\ x # <<>> THEN "tie"
                   ELSE IF BLe(x, y) THEN "yes" ELSE "no"
And3(s) == IF "no" \in s THEN "no" ELSE IF "tie" \in s THEN "tie" ELSE "yes"

\* duty cycles d/du, phase limit pl/plu; tobs in seconds
PhaseOK(a, b, f, fu, tobs, d, du, pl, plu, exact) ==
    Le(BMulI(BMulI(BMulI(BInt(Dev(a, b, f)), tobs), du), plu),
       BMulI(BMulI(BMulI(BInt(f[2]), fu), d), pl), exact)

\* DM difference ddm/dmu, band fmin..fmax MHz, limit dl/dlu; width of a signal = duty / freq.
\* The dispersion constant is 4150 or more precisely 4148.8 or 4149.38: a distance within 0.1% of the limit is a tie.
DmOK(ddm, dmu, fn, fx, dF, fF, dH, fH, du, fu, dl, dlu) ==
    IF ddm = 0 THEN "yes"
    ELSE
    LET wF == <<dF * fu, du * fF>>  wH == <<dH * fu, du * fH>>
        w == IF BLe(BMulI(BInt(wF[1]), wH[2]), BMulI(BInt(wH[1]), wF[2])) THEN wF ELSE wH
        lhs == BMulI(BMulI(BMulI(BMul(BInt(4150 * ddm), BInt(fx * fx - fn * fn)), w[2]), dlu), 1)
        rhs == BMulI(BMulI(BMulI(BMulI(BInt(fn * fn), fx * fx), w[1]), dl), dmu)
    IN  IF BLe(BMulI(lhs, 1001), BMulI(rhs, 1000)) THEN "yes"
        ELSE IF BLe(BMulI(rhs, 1001), BMulI(lhs, 1000)) THEN "no" ELSE "tie"

\* S/N in 1/su: |H - F/sqrt(pq)| <= l  <=>  F^2 <= pq (H + l)^2  and  (H <= l or F^2 >= pq (H - l)^2)
SnrOK(F, H, f, l, exact) ==
    LET pq == f[1] * f[2]
        up == Le(BMul(BInt(F), BInt(F)), BMulI(BMul(BInt(H + l), BInt(H + l)), pq), exact)
        lo == IF H <= l THEN "yes" ELSE Le(BMulI(BMul(BInt(H - l), BInt(H - l)), pq), BMul(BInt(F), BInt(F)), exact)
    IN  And3({up, lo})
==============================================================================
