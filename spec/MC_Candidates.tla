---------------------------- MODULE MC_Candidates -----------------------------
(* Building stage: clusters grouped by DM in order of first appearance; each group loads its file once; a cluster that fails is
   skipped; the result is sorted by S/N.  All small sets of clusters, DMs and failures. *)
EXTENDS Candidates
CONSTANTS NMAX, DMAX, SMAX
VARIABLES cl, groups, loaded, cur, out, pc
vars == <<cl, groups, loaded, cur, out, pc>>
Cl == [dm : 1..DMAX, s : 1..SMAX, fail : BOOLEAN]
GroupsOf(c) ==
    LET dms == FoldLeft(LAMBDA a, k : IF \E j \in 1..Len(a) : a[j] = c[k].dm THEN a ELSE Append(a, c[k].dm), <<>>, [k \in 1..Len(c) |-> k])
    IN  [g \in 1..Len(dms) |-> [dm |-> dms[g], ids |-> SelectSeq([k \in 1..Len(c) |-> k], LAMBDA k : c[k].dm = dms[g])]]
Init ==
    /\ \E n \in 0..NMAX : cl \in {c \in [1..n -> Cl] : \A i \in 1..(n - 1) : c[i].s >= c[i + 1].s}
    /\ groups = GroupsOf(cl) /\ loaded = 0 /\ cur = <<>> /\ out = <<>> /\ pc = "load"
Load ==
    /\ pc = "load" /\ groups # <<>>
    /\ loaded' = groups[1].dm /\ cur' = groups[1].ids /\ groups' = Tail(groups) /\ pc' = "build" /\ UNCHANGED <<cl, out>>
Build ==
    /\ pc = "build"
    /\ IF cur = <<>> THEN pc' = "load" /\ UNCHANGED <<cur, out>>
       ELSE /\ out' = (IF cl[cur[1]].fail THEN out ELSE Append(out, [from |-> loaded, id |-> cur[1]]))
            /\ cur' = Tail(cur) /\ UNCHANGED pc
    /\ UNCHANGED <<cl, groups, loaded>>
Finish ==
    /\ pc = "load" /\ groups = <<>> /\ pc' = "done"
    /\ out' = SortSeq(out, LAMBDA a, b : cl[a.id].s > cl[b.id].s) /\ UNCHANGED <<cl, groups, loaded, cur>>
Next == Load \/ Build \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
Complete == Done => Matching(Len(cl), out, {i \in 1..Len(cl) : ~cl[i].fail}, LAMBDA c, i : out[c].id = i)
RightData == \A c \in 1..Len(out) : out[c].from = cl[out[c].id].dm
Sorted == Done => \A c \in 1..(Len(out) - 1) : cl[out[c].id].s >= cl[out[c + 1].id].s
\* a period is in one range only
Ranges == <<[lo |-> 2, hi |-> 4], [lo |-> 4, hi |-> 5], [lo |-> 5, hi |-> 9]>>
OneRange == \A p \in 0..12 : LET r == RangeOf(Ranges, p) IN
    /\ (2 <= p /\ p < 9 => Ranges[r].lo <= p /\ p < Ranges[r].hi)
    /\ (p < 2 => r = 1) /\ (p >= 9 => r = 3)
Terminates == <>Done
===============================================================================
