------------------------------ MODULE MC_Boxcar -----------------------------
(***************************************************************************)
(* Exhaustive check, over all small profiles, that the score is what a     *)
(* correlation with the zero-mean unit-energy template gives, computed by  *)
(* a one-pass machine over circular prefix sums; and of its invariances.   *)
(***************************************************************************)
EXTENDS Boxcar, TLC, FiniteSets
CONSTANTS NMAX, VNEG, VMAX         \* profile values: -VNEG..VMAX
VARIABLES x, w, j, acc, pre, best

Init ==
    /\ \E n \in 2..NMAX : x \in [1..n -> (-VNEG)..VMAX] /\ w \in 1..(n - 1)
    /\ j = 0 /\ acc = 0 /\ pre = <<>> /\ best = <<>>
\* prefix sums over n + w circular positions
Prefix ==
    /\ Len(pre) < Len(x) + w
    /\ acc' = acc + At(x, Len(pre)) /\ pre' = Append(pre, acc')
    /\ UNCHANGED <<x, w, j, best>>
\* largest difference between positions w apart
Diff ==
    /\ Len(pre) = Len(x) + w /\ j < Len(x)
    /\ LET d == pre[j + 1 + w] - pre[j + 1]
       IN  best' = IF best = <<>> \/ d > best[1] THEN <<d>> ELSE best
    /\ j' = j + 1 /\ UNCHANGED <<x, w, acc, pre>>
Spec == Init /\ [][Prefix \/ Diff]_<<x, w, j, acc, pre, best>>

n == Len(x)
Template(p) == [k \in 0..(n - 1) |-> IF (k - p) % n < w THEN n - w ELSE -w]      \* proportional, zero mean
Correlation(p) == SumF(LAMBDA k : x[k + 1] * Template(p)[k], 0, n - 1)
ZeroMean == \A p \in 0..(n - 1) : SumF(LAMBDA k : Template(p)[k], 0, n - 1) = 0
\* sum of squares of the template is n w (n - w): the normalisation used above
Energy == SumF(LAMBDA k : Template(0)[k] * Template(0)[k], 0, n - 1) = n * w * (n - w)
Finished == j = n
MachineRight == Finished => Score(x, w) = n * best[1] - w * SumSeq(x)
IsCorrelation == Finished => Score(x, w) = MaxF(LAMBDA p : Correlation(p), 0, n - 1)
Rotate(y) == [k \in 1..n |-> y[(k % n) + 1]]
Invariances == Finished =>
    /\ Score(Rotate(x), w) = Score(x, w)
    /\ Score([k \in 1..n |-> x[k] + 7], w) = Score(x, w)
    /\ Score([k \in 1..n |-> 3 * x[k]], w) = 3 * Score(x, w)
    /\ Score(x, w) >= 0
=============================================================================
