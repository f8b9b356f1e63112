--------------------------- MODULE TraceCandidates ----------------------------
(* Conformance of Pipeline.build_candidates and Candidate (C18).
   cl[i]: best peak of cluster i (per, dm, s... in integer units), its peaks; fold[i][f][r]: ids of the arrays obtained by folding
   file f at that period with the bins of range r, with its subints (k) or all full periods (all); 0: that fold raises. *)
EXTENDS Candidates, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

FileOf(e, i) == CHOOSE f \in 1..Len(e.dms) : e.dms[f] = e.cl[i].best.dm
\* allowed contents of the sub-integrations of cluster i
Folds(e, i) ==
    LET f == FileOf(e, i) r == RangeOf(e.ranges, e.cl[i].best.per) k == e.ranges[r].k
        t == k * e.cl[i].best.per
    IN  IF k = 0 \/ t > e.len[f] THEN {e.fold[i][f][r].all}
        ELSE IF t < e.len[f] THEN {e.fold[i][f][r].k}
        ELSE {e.fold[i][f][r].k, e.fold[i][f][r].all}
Params(e, c, i) == e.cands[c].par = e.cl[i].best
Table(e, c, i) == SameBag(e.cands[c].peaks, e.cl[i].peaks)
Sums(c) ==
    IF c.one THEN \A b \in 1..Len(c.prof) : Abs(c.prof[b] - c.sub[1][b]) <= 2
    ELSE \A b \in 1..Len(c.prof) : Abs(c.prof[b] - SumF(LAMBDA k : c.sub[k][b], 1, Len(c.sub))) <= 2 + 2 * Len(c.sub)
Right(e, c, i) == Params(e, c, i) /\ e.cands[c].id \in Folds(e, i) /\ e.cands[c].meta = FileOf(e, i) /\ Table(e, c, i)
Cands(e) ==
    LET built == TLCEval({i \in 1..Len(e.cl) : 0 \notin Folds(e, i)})
        C == 1..Len(e.cands)
    IN  IF e.out # "ok" THEN "failed: " \o e.out
        ELSE IF \E c \in C : e.cands[c].id = 0 THEN "candidate with unusable sub-integrations"
        ELSE IF Len(e.cands) # Cardinality(built) THEN "candidates lost or invented"
        ELSE IF \E c \in C : \A i \in built : ~Params(e, c, i) THEN "parameters are not the best peak's"
        ELSE IF \E c \in C : \A i \in built : ~(Params(e, c, i) /\ e.cands[c].id \in Folds(e, i)) THEN "folded from wrong data or with wrong parameters"
        ELSE IF \E c \in C : \A i \in built : ~(Params(e, c, i) /\ e.cands[c].meta = FileOf(e, i)) THEN "metadata of another file"
        ELSE IF \E c \in C : \A i \in built : ~(Params(e, c, i) /\ Table(e, c, i)) THEN "wrong table of peaks"
        ELSE IF ~Matching(Len(e.cl), e.cands, built, LAMBDA c, i : Right(e, c, i)) THEN "candidates do not match the clusters"
        ELSE IF \E c \in C : c < Len(e.cands) /\ e.cands[c].par.s < e.cands[c + 1].par.s THEN "not in decreasing S/N order"
        ELSE IF \E c \in C : ~Sums(e.cands[c]) THEN "profile is not the sum of sub-integrations"
        ELSE IF \E c \in C : e.cands[c].curve # DmCurve(e.cands[c].peaks) THEN "wrong DM curve"
        ELSE "ok"
Verdict(e) == CASE e.e = "cands" -> Cands(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
