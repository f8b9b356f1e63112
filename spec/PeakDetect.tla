------------------------------ MODULE PeakDetect ------------------------------
(* Peak finding in a periodogram (C11).
   S/N are integers in units of 1/65536, frequencies integers in units of the Fourier bin 1/tobs times 1/xs.
   A trial is selected when its S/N exceeds smin and the threshold; selected trials are grouped by friends-of-friends in
   frequency; the brightest of each group is the peak. *)
EXTENDS Cluster

\* ---- dynamic threshold
Segments(span, width) == CeilDiv(span, width)                     \* number of segments, the last may be partial
Used(n, span, width, minseg) == Segments(span, width) >= minseg

\* percentile k/4 of the sorted sequence v (linear interpolation), times 4
Percentile4(v, k) ==
    LET pos == (Len(v) - 1) * k i == pos \div 4 f == pos % 4
    IN  IF f = 0 THEN 4 * v[i + 1] ELSE (4 - f) * v[i + 1] + f * v[i + 2]
\* control point of a segment, in units of 1/1024: median + nstd x (interquartile range / 1.349); nstd = ns10 / 10
Control(seg, ns10) ==
    LET v == TLCEval(SortSeq(seg, LAMBDA a, b : a < b))
        med == Percentile4(v, 2) \div 256
        iqr4 == Percentile4(v, 3) - Percentile4(v, 1)
    IN  med + (((iqr4 * ns10) \div 1349) * 100) \div 256
SegOf(s, p, j) == SubSeq(s, (j - 1) * p + 1, j * p)

\* The fitted polynomial is the least squares one exactly when its residuals at the control points are orthogonal to
\* 1, u, u^2, ... u^deg (u: any linear function of log f)
Orthogonal(res, u, k, scale, tol) ==
    Abs(SumF(LAMBDA j : IF k = 0 THEN res[j] ELSE IF k = 1 THEN (res[j] * u[j]) \div scale
                        ELSE IF k = 2 THEN (res[j] * ((u[j] * u[j]) \div scale)) \div scale
                        ELSE (res[j] * ((((u[j] * u[j]) \div scale) * u[j]) \div scale)) \div scale, 1, Len(res))) <= tol
IsFit(res, u, deg, scale) == \A k \in 0..deg : Orthogonal(res, u, k, scale, 3 * Len(res) + 3)

\* ---- selection and grouping
Selected(s, thr, smin) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] > smin /\ s[i] > thr[i])
Ambiguous(s, thr) == \E i \in 1..Len(s) : Abs(s[i] - thr[i]) <= 2

\* groups of the trials `sel` (sequence of indices), along decreasing frequency x
Groups(sel, x, r) ==
    LET n == Len(sel)
        st == TLCEval(SelectSeq([k \in 1..n |-> k], LAMBDA k : k = 1 \/ Abs(x[sel[k - 1]] - x[sel[k]]) > r))
        end(j) == IF j = Len(st) THEN n ELSE st[j + 1] - 1
    IN  {SubSeq(sel, st[j], end(j)) : j \in 1..Len(st)}

Top(g, s) == MaxF(LAMBDA j : s[g[j]], 1, Len(g))
Best(g, s) == LET t == TLCEval(Top(g, s)) IN {g[i] : i \in {i \in 1..Len(g) : s[g[i]] = t}}
==============================================================================
