-------------------------------- MODULE Rseek ---------------------------------
(* The table of rseek (C24).  Peaks are [f: frequency, s: S/N] with integer values; two peaks are neighbours when their frequencies
   differ by at most r; the peaks connected by chains of neighbours form a group, of which only the brightest is reported. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- declaratively: connected components
Near(p, q, r) == Abs(p.f - q.f) <= r
RECURSIVE Grow(_, _, _)
Grow(P, S, r) == LET T == {i \in 1..Len(P) : \E j \in S : Near(P[i], P[j], r)} IN IF T = S THEN S ELSE Grow(P, T, r)
GroupOf(P, i, r) == Grow(P, {i}, r)
Brightest(P, S) == {i \in S : \A j \in S : P[i].s >= P[j].s}
\* a table (indices into P, in order) reports P
Reports(P, r, table) ==
    /\ \A a \in 1..Len(table) : table[a] \in Brightest(P, GroupOf(P, table[a], r))
    /\ \A i \in 1..Len(P) : \E a \in 1..Len(table) : table[a] \in GroupOf(P, i, r)
    /\ \A a, b \in 1..Len(table) : a # b => table[b] \notin GroupOf(P, table[a], r)
    /\ \A a \in 1..(Len(table) - 1) : P[table[a]].s >= P[table[a + 1]].s
\* ---- a faster way to the groups, for larger tables: walk up the sorted frequencies
ByFreq(P) == SortSeq([i \in 1..Len(P) |-> i], LAMBDA a, b : P[a].f < P[b].f)
Breaks(P, o, r) == {k \in 1..(Len(o) - 1) : P[o[k + 1]].f - P[o[k]].f > r}
RECURSIVE Walk(_, _, _, _)
Walk(o, br, k, acc) ==                                          \* acc: sequence of sets of indices
    IF k > Len(o) THEN acc
    ELSE IF k = 1 \/ (k - 1) \in br THEN Walk(o, br, k + 1, Append(acc, {o[k]}))
    ELSE Walk(o, br, k + 1, [acc EXCEPT ![Len(acc)] = @ \cup {o[k]}])
Groups(P, r) == LET o == ByFreq(P) IN Walk(o, Breaks(P, o, r), 1, <<>>)
ReportsFast(P, r, table) ==
    LET G == TLCEval(Groups(P, r)) IN
    /\ Len(table) = Len(G)
    /\ \A g \in 1..Len(G) : Cardinality({a \in 1..Len(table) : table[a] \in Brightest(P, G[g])}) = 1
    /\ \A a \in 1..(Len(table) - 1) : P[table[a]].s >= P[table[a + 1]].s
===============================================================================
