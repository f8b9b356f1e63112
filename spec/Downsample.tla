----------------------------- MODULE Downsample -----------------------------
(***************************************************************************)
(* Downsampling by a rational factor f = num / den: output k integrates    *)
(* the input, seen as a step function, over [k f, (k + 1) f).              *)
(* Everything is in units of 1 / den of a sample.                          *)
(***************************************************************************)
EXTENDS Num

ValidFactor(size, num, den) == num > den /\ num <= size * den
OutSize(size, num, den) == (size * den) \div num

\* overlap of input sample i with output k (both 0-based)
Overlap(num, den, i, k) ==
    Max2(0, Min2((k + 1) * num, (i + 1) * den) - Max2(k * num, i * den))

FirstIn(num, den, k) == (k * num) \div den
LastIn(num, den, k) == ((k + 1) * num - 1) \div den

\* den times output k, for input x (1-based sequence) starting at sample number i0
Integral(x, i0, num, den, k) ==
    SumF(LAMBDA i : x[i - i0 + 1] * Overlap(num, den, i, k), FirstIn(num, den, k), LastIn(num, den, k))
=============================================================================
