------------------------------ MODULE TraceFlag -------------------------------
(* Conformance of Pipeline.cluster_peaks / flag_harmonics (C14) and apply_candidate_filters (C17) *)
EXTENDS Cluster, Flag, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* x: frequencies in units; two peaks are friends when (distance) * rd <= rn
Radius(e) == e.rn \div e.rd
Clusters(e) ==
    LET n == Len(e.x) K == Len(e.clusters)
        f == TLCEval(FoldLeft(LAMBDA a, g : a \o g, <<>>, e.clusters))
    IN  IF e.out # "ok" THEN "failed: " \o e.out
        ELSE IF \E g \in 1..K : e.clusters[g] = <<>> THEN "empty cluster"
        ELSE IF Len(f) # n \/ {f[i] : i \in 1..Len(f)} # 1..n THEN "peaks lost, duplicated or foreign"
        ELSE LET lab == TLCEval([i \in 1..n |-> CHOOSE g \in 1..K : \E j \in 1..Len(e.clusters[g]) : e.clusters[g][j] = i])
             IN  IF ~LabelsRight(e.x, Radius(e), lab) THEN "clusters are not the frequency groups"
                 ELSE IF \E g \in 1..K : e.centre[g] \notin {e.clusters[g][j] : j \in 1..Len(e.clusters[g])}
                                         \/ \E j \in 1..Len(e.clusters[g]) : e.s[e.clusters[g][j]] > e.s[e.centre[g]]
                      THEN "centre is not the brightest peak"
                 ELSE "ok"
\* clusters listed in order of rank
Ranks(e) ==
    LET K == Len(e.clusters) IN
    IF {e.rank[g] : g \in 1..K} # 0..(K - 1) THEN "ranks are not 0, 1, 2..."
    ELSE IF \E g, h \in 1..K : e.rank[g] < e.rank[h] /\ e.s[e.centre[g]] < e.s[e.centre[h]] THEN "ranks do not follow S/N"
    ELSE LET at == TLCEval([r \in 1..K |-> CHOOSE g \in 1..K : e.rank[g] = r - 1])
             par == TLCEval([r \in 1..K |-> e.parent[at[r]] + 1])     \* 0: none
             rel == TLCEval([a \in 1..K |-> [b \in 1..K |-> e.rel[a][b].t]])
         IN  IF \E r \in 1..K : e.flag[at[r]] # (par[r] # 0) THEN "harmonic flag without fundamental"
             ELSE IF ~FlagsRight(K, rel, par) THEN "wrong harmonic flags"
             ELSE IF \E r \in 1..K : par[r] # 0 /\ (e.hf[at[r]].p # e.rel[par[r]][r].p \/ e.hf[at[r]].q # e.rel[par[r]][r].q)
                  THEN "wrong harmonic fraction"
             ELSE "ok"
Flags(e) == LET v == Clusters(e) IN IF v # "ok" THEN v ELSE Ranks(e)

Filtered(e) ==
    LET kept == {e.kept[i] : i \in 1..Len(e.kept)} IN
    IF e.out # "ok" THEN "failed: " \o e.out
    ELSE IF Cardinality(kept) # Len(e.kept) THEN "duplicated clusters"
    ELSE IF ~(kept \subseteq 1..Len(e.cs)) THEN "foreign cluster"
    ELSE IF ~FilterRight(e.cs, e.f, kept) THEN "wrong clusters kept"
    ELSE IF ~e.same THEN "filtering altered the clusters"
    ELSE "ok"
Verdict(e) == CASE e.e = "flags" -> Flags(e) [] e.e = "filter" -> Filtered(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
