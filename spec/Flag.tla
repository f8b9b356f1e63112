--------------------------------- MODULE Flag ---------------------------------
(* Ranking, harmonic flagging and candidate filtering of clusters (C14, C17).
   Clusters are numbered by rank + 1; rel[i][j] (i < j) tells whether cluster j passes the harmonic test against i. *)
EXTENDS Num, FiniteSets, TLC, Sequences

\* Declarative: parent of each cluster (0: none): the brightest brighter cluster, itself not flagged, it is related to.
\* This is well founded: whether j is flagged depends on brighter clusters only.
RECURSIVE Parents(_, _, _)
Parents(n, rel, acc) ==
    IF Len(acc) = n THEN acc
    ELSE LET j == Len(acc) + 1
             c == {i \in 1..(j - 1) : acc[i] = 0 /\ rel[i][j]}
         IN  Parents(n, rel, TLCEval(Append(acc, IF c = {} THEN 0 ELSE CHOOSE i \in c : \A k \in c : i <= k)))
ParentOf(n, rel) == Parents(n, rel, <<>>)

\* The property, as a predicate on any assignment of parents
FlagsRight(n, rel, par) ==
    \A j \in 1..n :
        LET c == {i \in 1..(j - 1) : par[i] = 0 /\ rel[i][j]} IN
        IF c = {} THEN par[j] = 0
        ELSE par[j] \in c /\ \A k \in c : par[j] <= k

\* ---- candidate filters.  c: sequence of [dm, s, flag]; f: [dm, s, rem, max], the first two <<>> or <<value>>, max 0 = none
Passes(c, f) ==
    /\ (f.dm = <<>> \/ c.dm >= f.dm[1])
    /\ (f.s = <<>> \/ c.s >= f.s[1])
    /\ (f.rem => ~c.flag)
Passing(cs, f) == {i \in 1..Len(cs) : Passes(cs[i], f)}
FilterRight(cs, f, kept) ==
    LET P == Passing(cs, f) IN
    /\ kept \subseteq P
    /\ Cardinality(kept) = (IF f.max = 0 THEN Cardinality(P) ELSE Min2(f.max, Cardinality(P)))
    /\ \A i \in kept : \A j \in P \ kept : cs[i].s >= cs[j].s
===============================================================================
