----------------------------- MODULE TraceCluster -----------------------------
(* Conformance of cluster1d (C12) *)
EXTENDS Cluster, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Flat(e) == FoldLeft(LAMBDA a, g : a \o g, <<>>, e.groups)
Right(e) ==
    LET n == Len(e.x) f == TLCEval(Flat(e)) IN
    IF e.out # "ok" THEN "failed: " \o e.out
    ELSE IF \E i \in 1..Len(e.groups) : e.groups[i] = <<>> THEN "empty group"
    ELSE IF Len(f) # n \/ {f[i] : i \in 1..Len(f)} # 0..(n - 1) THEN "not a partition of the points"
    ELSE LET lab == TLCEval([i \in 1..n |-> CHOOSE g \in 1..Len(e.groups) : \E j \in 1..Len(e.groups[g]) : e.groups[g][j] = i - 1])
         IN  IF ~LabelsRight(e.x, e.r, lab) THEN "groups are not the connected components"
             ELSE IF ~e.pure THEN "input modified" ELSE "ok"
\* many points: sorted values k + (jumps so far); jumps is a sequence of <<k, j>>: the distance of point k to point k - 1 is
\* 1 + j.  Groups are given as <<smallest sorted position, size>>, ok = every group is a contiguous run of positions
Many(e) ==
    LET bp == <<1>> \o [i \in 1..Len(SelectSeq(e.jumps, LAMBDA q : 1 + q[2] > e.r)) |-> SelectSeq(e.jumps, LAMBDA q : 1 + q[2] > e.r)[i][1]]
        want == [i \in 1..Len(bp) |-> <<bp[i], (IF i = Len(bp) THEN e.n + 1 ELSE bp[i + 1]) - bp[i]>>]
    IN  IF e.out # "ok" THEN "failed: " \o e.out
        ELSE IF ~e.contig \/ e.groups # want THEN "groups are not the connected components"
        ELSE IF ~e.pure THEN "input modified" ELSE "ok"
Verdict(e) == CASE e.e = "many" -> Many(e) [] e.e = "cluster" -> Right(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
