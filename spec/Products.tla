------------------------------- MODULE Products -------------------------------
(* Data products of a run (C19). *)
EXTENDS Num, FiniteSets, TLC, SequencesExt

\* names: records [k, n]: kind of file and candidate number (-1: none)
File(k, n) == [k |-> k, n |-> n]
ExpectedFiles(npeaks, ncands, plot) ==
    IF npeaks = 0 THEN {}
    ELSE {File("peaks", -1), File("clusters", -1)}
         \union (IF ncands = 0 THEN {} ELSE {File("cands", -1)})
         \union {File("json", n) : n \in 0..(ncands - 1)}
         \union (IF plot THEN {File("png", n) : n \in 0..(ncands - 1)} ELSE {})

\* a run loses a product when one of the names it needs cannot be written
Lost(want, blocked) == want \intersect blocked # {}

\* decimal numbers as <<integer part, 9 digit fraction>> (of the absolute value) and sign
NearDec(a, b) ==
    \/ a = b
    \/ a[1] = b[1] /\ a[3] = b[3] /\ Abs(a[2] - b[2]) <= 1
    \/ a[3] = b[3] /\ a[1] = b[1] + 1 /\ a[2] = 0 /\ b[2] = 999999999
    \/ a[3] = b[3] /\ b[1] = a[1] + 1 /\ b[2] = 0 /\ a[2] = 999999999
NearRow(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NearDec(a[k], b[k])
\* the rows of a table are the given ones, in any order
SameTable(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : NearRow(a[i], a[j])}) = Cardinality({j \in 1..Len(b) : NearRow(a[i], b[j])})
===============================================================================
