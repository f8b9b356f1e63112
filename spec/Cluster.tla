------------------------------- MODULE Cluster -------------------------------
(* Friends-of-friends clustering of numbers with a radius (C12; used by C11, C14, C24).
   Two points are friends when their distance is at most r; clusters are the connected components. *)
EXTENDS Num, FiniteSets, TLC, SequencesExt

Friends(x, r, i, j) == Abs(x[i] - x[j]) <= r

\* Declarative definition (small inputs): connected components of the friendship graph, as a set of sets of indices
RECURSIVE Grow(_, _, _)
Grow(x, r, S) ==
    LET T == S \union {j \in 1..Len(x) : \E i \in S : Friends(x, r, i, j)}
    IN  IF T = S THEN S ELSE Grow(x, r, T)
Components(x, r) == {Grow(x, r, {i}) : i \in 1..Len(x)}

\* Operational characterisation (any size): after sorting the points by value, two neighbours in that order are in the
\* same group exactly when their distance is at most r.  `lab[i]` is the group of point i.
SortedIdx(x) == SortSeq([i \in 1..Len(x) |-> i], LAMBDA a, b : x[a] < x[b] \/ (x[a] = x[b] /\ a < b))
LabelsRight(x, r, lab) ==
    LET o == TLCEval(SortedIdx(x)) n == Len(x)
        starts == {k \in 1..n : k = 1 \/ x[o[k]] - x[o[k - 1]] > r}
    IN  /\ \A k \in 2..n : (lab[o[k]] = lab[o[k - 1]]) <=> (x[o[k]] - x[o[k - 1]] <= r)
        /\ Cardinality({lab[o[k]] : k \in starts}) = Cardinality(starts)
==============================================================================
