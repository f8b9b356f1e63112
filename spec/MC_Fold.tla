------------------------------- MODULE MC_Fold ------------------------------
(***************************************************************************)
(* A folding machine that takes the samples one by one and spreads each    *)
(* over the (row, bin) cells it overlaps, checked against the definition.  *)
(***************************************************************************)
EXTENDS Fold, TLC
CONSTANTS NMAX, DMAX, BMAX
VARIABLES n, num, den, b, r, i, cell, used
vars == <<n, num, den, b, r, i, cell, used>>
M == FullPeriods(n, num, den, b)
RECURSIVE Gcd(_, _)
Gcd(u, v) == IF v = 0 THEN u ELSE Gcd(v, u % v)
X(k) == ((k * k + 3 * k + 1) % 7) - 3        \* fixed data
Init ==
    /\ n \in 2..NMAX /\ den \in 1..DMAX /\ b \in 1..BMAX /\ num \in 2..(NMAX * DMAX)
    /\ ValidBins(num, den) /\ num * b <= n * den /\ Gcd(num, den) = 1
    /\ r \in 1..NMAX /\ ValidSubints(r, M)
    /\ i = 0 /\ cell = [k \in 0..(r - 1), j \in 0..(b - 1) |-> 0] /\ used = 0
\* Weight of sample s in (period p, bin j) in units 1 / den, of period p in row k in units 1 / r
W(s, p, j) == Overlap(num, den, s, p * b + j)
Step ==
    /\ i < n
    /\ cell' = [c \in DOMAIN cell |-> cell[c] + X(i) * SumF(LAMBDA p : W(i, p, c[2]) * Overlap(M, r, p, c[1]), 0, M - 1)]
    /\ used' = used + SumF(LAMBDA p : SumF(LAMBDA j : W(i, p, j), 0, b - 1), 0, M - 1)
    /\ i' = i + 1 /\ UNCHANGED <<n, num, den, b, r>>
Spec == Init /\ [][Step]_vars

Data == [k \in 1..n |-> X(k - 1)]
Right == i = n => \A c \in DOMAIN cell : cell[c] = FoldedBin(Data, num, den, b, M, r, c[1], c[2])
\* summing the rows always gives the same profile
SameProfile == i = n => \A j \in 0..(b - 1) :
    SumF(LAMBDA k : cell[<<k, j>>], 0, r - 1) = r * FoldedBin(Data, num, den, b, M, 1, 0, j)
\* every sample of the M full periods counts exactly once, the others not at all
EachOnce == used = Min2(i * den, M * b * num)
=============================================================================
