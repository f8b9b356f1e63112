-------------------------------- MODULE Fold --------------------------------
(***************************************************************************)
(* Folding n samples at a period of b bins of f = num / den samples.       *)
(* m full periods fit; they are grouped into r rows of m / r periods each. *)
(* Bin j of row k adds up, over the periods i of that row, the integral of *)
(* the data over [(i b + j) f, (i b + j + 1) f), a period shared between   *)
(* two rows counting in proportion.  The result is scaled by 1 / sqrt(m f).*)
(***************************************************************************)
EXTENDS Downsample

FullPeriods(n, num, den, b) == (n * den) \div (num * b)
ValidBins(num, den) == num > den                                  \* bins wider than the sampling time
ValidSubints(r, m) == r >= 1 /\ r <= m

\* den r times the unscaled value (row k, bin j, both 0-based)
FoldedBin(x, num, den, b, m, r, k, j) ==
    SumF(LAMBDA i : Overlap(m, r, i, k) * Integral(x, 0, num, den, i * b + j),
         FirstIn(m, r, k), LastIn(m, r, k))
=============================================================================
