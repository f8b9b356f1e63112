----------------------------- MODULE Candidates -------------------------------
(* Building of candidates from the clusters kept (C18) *)
EXTENDS Num, FiniteSets, TLC, SequencesExt

\* ranges: contiguous, increasing, [lo, hi) each.  The range whose bins and subints are used for period p
RangeOf(R, p) ==
    IF p < R[1].lo THEN 1
    ELSE IF p >= R[Len(R)].hi THEN Len(R)
    ELSE CHOOSE r \in 1..Len(R) : R[r].lo <= p /\ p < R[r].hi

\* best S/N of each DM, by increasing DM; peaks: records with dm and s
DmCurve(peaks) ==
    LET dms == TLCEval(SortSeq(SetToSeq({peaks[i].dm : i \in 1..Len(peaks)}), <))
    IN  [k \in 1..Len(dms) |->
            LET c == {peaks[i].s : i \in {j \in 1..Len(peaks) : peaks[j].dm = dms[k]}}
            IN  [dm |-> dms[k], s |-> CHOOSE v \in c : \A w \in c : w <= v]]

\* the candidates are those of the clusters that can be built, each once, by decreasing S/N.  Of(c, i): candidate c is right for cluster i
Matching(n, cands, built, Of(_, _)) ==
    /\ Len(cands) = Cardinality(built)
    /\ \A i \in built : \E c \in 1..Len(cands) : Of(c, i)
    /\ \A c \in 1..Len(cands) : \E i \in built : Of(c, i)
===============================================================================
