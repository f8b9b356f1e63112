---------------------------- MODULE MC_PeakDetect ----------------------------
(* Peak finding machine: walk the trials, open a group when the gap to the previous selected trial exceeds the radius,
   keep its best trial.  TLC checks it against the declarative groups for all small periodograms of one width. *)
EXTENDS PeakDetect
CONSTANTS NMAX, SMAX, GMAX
VARIABLES s, gaps, thr, smin, r, k, best, last, peaks, pc
vars == <<s, gaps, thr, smin, r, k, best, last, peaks, pc>>

X(i) == SumF(LAMBDA j : gaps[j], i, Len(s))
Xs == [i \in 1..Len(s) |-> X(i)]
Init ==
    /\ \E n \in 1..NMAX : s \in [1..n -> 0..SMAX] /\ gaps \in [1..n -> 1..GMAX]
    /\ \E t \in 0..SMAX : thr \in {[i \in 1..Len(s) |-> t], [i \in 1..Len(s) |-> (t * i) \div Len(s)]}
    /\ smin \in 0..1 /\ r \in 0..2
    /\ k = 1 /\ best = 0 /\ last = 0 /\ peaks = {} /\ pc = "scan"
Sel(i) == s[i] > smin /\ s[i] > thr[i]
Scan ==
    /\ pc = "scan" /\ k <= Len(s)
    /\ IF ~Sel(k) THEN UNCHANGED <<best, last, peaks>>
       ELSE /\ last' = k
            /\ IF last # 0 /\ X(last) - X(k) <= r
               THEN peaks' = peaks /\ best' = IF s[k] > s[best] THEN k ELSE best
               ELSE peaks' = (IF best = 0 THEN peaks ELSE peaks \union {best}) /\ best' = k
    /\ k' = k + 1 /\ UNCHANGED <<s, gaps, thr, smin, r, pc>>
End == /\ pc = "scan" /\ k > Len(s) /\ pc' = "done"
       /\ peaks' = (IF best = 0 THEN peaks ELSE peaks \union {best})
       /\ UNCHANGED <<s, gaps, thr, smin, r, k, best, last>>
Next == Scan \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
Sq == TLCEval(Selected(s, thr, smin))
OnePerGroup == Done =>
    LET gs == Groups(Sq, Xs, r)
    IN  /\ Cardinality(gs) = Cardinality(peaks)
        /\ \A g \in gs : Cardinality({i \in 1..Len(g) : g[i] \in peaks}) = 1
        /\ \A g \in gs : \E i \in 1..Len(g) : g[i] \in peaks /\ g[i] \in Best(g, s)
GroupsAreComponents == Done =>
    {{g[i] : i \in 1..Len(g)} : g \in Groups(Sq, Xs, r)} = {{Sq[i] : i \in C} : C \in Components([i \in 1..Len(Sq) |-> X(Sq[i])], r)}
NothingBelow == \A p \in peaks : s[p] > smin /\ s[p] > thr[p]
NothingMissed == Done => \A i \in 1..Len(s) : Sel(i) => \E p \in peaks : s[p] >= s[i]
Terminates == <>Done
===============================================================================
