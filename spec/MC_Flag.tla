------------------------------- MODULE MC_Flag --------------------------------
(* The flagging loop over all pairs of clusters in decreasing S/N order, for every relation on up to NMAX clusters. *)
EXTENDS Flag
CONSTANT NMAX
VARIABLES n, rel, i, j, par
vars == <<n, rel, i, j, par>>

Pairs(m) == {<<a, b>> \in (1..m) \X (1..m) : a < b}
Init ==
    /\ n \in 0..NMAX
    /\ \E S \in SUBSET Pairs(n) : rel = [a \in 1..n |-> [b \in 1..n |-> <<a, b>> \in S]]
    /\ i = 1 /\ j = 2 /\ par = [k \in 1..n |-> 0]
Step ==
    /\ i < n
    /\ IF j > n THEN i' = i + 1 /\ j' = i + 2 /\ UNCHANGED par
       ELSE /\ par' = (IF par[i] = 0 /\ par[j] = 0 /\ rel[i][j] THEN [par EXCEPT ![j] = i] ELSE par)
            /\ j' = j + 1 /\ UNCHANGED i
    /\ UNCHANGED <<n, rel>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == i >= n
LoopRight == Done => par = ParentOf(n, rel)
PredicateRight == Done => FlagsRight(n, rel, par)
\* consequences named by the property
NoChain == \A k \in 1..n : par[k] # 0 => par[par[k]] = 0 /\ par[k] < k
BrightestFree == n >= 1 => par[1] = 0
\* the predicate has one solution
Unique == Done => \A k \in 1..n : \A v \in 0..n : v # par[k] => ~FlagsRight(n, rel, [par EXCEPT ![k] = v])
Terminates == <>Done
===============================================================================
