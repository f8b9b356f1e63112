------------------------------- MODULE Boxcar -------------------------------
(***************************************************************************)
(* S/N of a profile of n bins for a boxcar of w bins with zero mean and    *)
(* unit square sum: height h = sqrt((n-w)/(n w)), baseline -w h / (n - w). *)
(* Multiplied by sqrt(n w (n - w)), the best S/N over all phases is the    *)
(* integer  n * (largest circular window sum) - w * (sum).                 *)
(***************************************************************************)
EXTENDS Num

At(x, j) == x[(j % Len(x)) + 1]                                  \* 0-based, circular
WindowSum(x, w, j) == SumF(LAMBDA k : At(x, k), j, j + w - 1)
\* circular window sums by increments: sequence of partial sums
RECURSIVE SlideMax(_, _, _, _, _)
SlideMax(x, w, j, cur, best) ==
    IF j = Len(x) THEN best
    ELSE LET c == cur - At(x, j - 1) + At(x, j - 1 + w) IN SlideMax(x, w, j + 1, c, Max2(best, c))
MaxWindow(x, w) == LET c0 == WindowSum(x, w, 0) IN SlideMax(x, w, 1, c0, c0)

Score(x, w) == Len(x) * MaxWindow(x, w) - w * SumSeq(x)
ValidWidth(w, n) == 0 < w /\ w < n
=============================================================================
