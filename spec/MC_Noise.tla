------------------------------- MODULE MC_Noise -----------------------------
(***************************************************************************)
(* The noise level of resampled data (SearchSnr!Variances), against the    *)
(* sum of squared overlaps of the definition (Downsample), accumulated     *)
(* sample by sample.                                                       *)
(***************************************************************************)
EXTENDS SearchSnr, TLC
CONSTANTS FMAX, DMAX, NOUT
VARIABLES num, den, k, acc
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Init == /\ den \in 1..DMAX /\ num \in (DMAX + 1)..(FMAX * DMAX) /\ num >= den /\ Gcd(num, den) = 1
        /\ k = 0 /\ acc = 0
Sq(x) == x * x
Next == /\ k < NOUT
        /\ acc' = acc + SumF(LAMBDA i : Sq(Overlap(num, den, i, k)), FirstIn(num, den, k), LastIn(num, den, k))
        /\ k' = k + 1 /\ UNCHANGED <<num, den>>
Spec == Init /\ [][Next]_<<num, den, k, acc>>
V == LET s == Variances(BInt(num), BInt(den), k, 1000) IN CHOOSE v \in s : TRUE
\* acc / (k den^2) is the average variance of the first k samples
\* after a full cycle it is exactly f - 1/3 + 1/(3 den^2), in particular f for an integer factor
FullCycle == (k > 0 /\ k % den = 0) => 3 * acc = k * (3 * num * den - den * den + 1)
IntegerFactor == (k > 0 /\ den = 1) => BCmp(V[1], BMulI(V[2], num)) = 0
\* while the overlaps drift through the first sample, the formula stays within 2 r of it (r = distance to the nearest
\* integer); it is exact for an integer factor
K == (2 * num + den) \div (2 * den)
R == Abs(num - K * den)                                                       \* r den
Drifting == (k > 0 /\ k * R <= den) =>
    LET v1 == BVal(V[1]) v2 == BVal(V[2]) d3 == 3 * den * den
    IN  /\ v2 = d3
        /\ Abs(3 * acc - k * v1) <= 6 * k * R * den
=============================================================================
