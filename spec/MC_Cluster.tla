------------------------------ MODULE MC_Cluster ------------------------------
(* The clustering machine: sort (unless told that the data are sorted), scan, cut where the step exceeds the radius.
   TLC checks, for all small inputs, that it yields the connected components, whichever the order of the input. *)
EXTENDS Cluster
CONSTANTS NMAX, VMAX, RMAX
VARIABLES x, r, order, k, groups, cur, pc
vars == <<x, r, order, k, groups, cur, pc>>

Asc(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Desc(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
Init ==
    /\ \E n \in 0..NMAX : x \in [1..n -> 0..VMAX]
    /\ r \in 0..RMAX
    /\ order \in {SortedIdx(x)} \union (IF Asc(x) \/ Desc(x) THEN {[i \in 1..Len(x) |-> i]} ELSE {})
    /\ k = 1 /\ groups = {} /\ cur = {} /\ pc = "scan"
Scan ==
    /\ pc = "scan" /\ k <= Len(x)
    /\ IF k > 1 /\ Abs(x[order[k]] - x[order[k - 1]]) > r
       THEN groups' = groups \union {cur} /\ cur' = {order[k]}
       ELSE cur' = cur \union {order[k]} /\ groups' = groups
    /\ k' = k + 1 /\ UNCHANGED <<x, r, order, pc>>
End ==
    /\ pc = "scan" /\ k > Len(x)
    /\ groups' = (IF cur = {} THEN {} ELSE groups \union {cur})
    /\ pc' = "done" /\ UNCHANGED <<x, r, order, k, cur>>
Next == Scan \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
IsComponents == Done => groups = Components(x, r)
Partition == Done => UNION groups = 1..Len(x) /\ \A g, h \in groups : g = h \/ g \cap h = {}
Lab(i) == CHOOSE m \in 1..Len(x) : \E g \in groups : i \in g /\ m \in g /\ \A q \in g : m <= q
Characterised == Done => LabelsRight(x, r, [i \in 1..Len(x) |-> Lab(i)])
\* a wrong labelling is told apart
Discriminates ==
    Done /\ Len(x) >= 2 =>
        \A i \in 1..Len(x) : \A m \in 1..(Len(x) + 1) :
            m # Lab(i) /\ (\E j \in 1..Len(x) : j # i /\ (Lab(j) = m \/ Lab(j) = Lab(i)))
            => ~LabelsRight(x, r, [[j \in 1..Len(x) |-> Lab(j)] EXCEPT ![i] = m])
Terminates == <>Done
===============================================================================
