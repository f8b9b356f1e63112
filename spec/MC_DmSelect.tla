----------------------------- MODULE MC_DmSelect ------------------------------
(* The stepping machine: from the current trial, scan forward to the first trial out of reach and step to the one before it
   (at least to the next one).  For every set of trial DMs in 0..VMAX (units of CD), flat radius w and smearing slope cn/CD. *)
EXTENDS DmSelect, SequencesExt
CONSTANTS VMAX, WMAX, CD
VARIABLES av, w, cn, cur, j, sel, pc
vars == <<av, w, cn, cur, j, sel, pc>>
Rad == [i \in 1..Len(av) |-> Max2(w * CD, cn * (av[i] \div CD))]
Init ==
    /\ \E S \in SUBSET (0..VMAX) \ {{}} : av = [i \in 1..Cardinality(S) |-> CD * SortSeq(SetToSeq(S), <)[i]]
    /\ w \in 0..WMAX /\ cn \in 0..CD
    /\ cur = 1 /\ j = 1 /\ sel = <<1>> /\ pc = "scan"
Scan ==
    /\ pc = "scan"
    /\ IF j > Len(av) \/ Gap(av, Rad, cur, j) > 0
       THEN LET n == Max2(j - 1, cur + 1)
            IN  IF n > Len(av) THEN pc' = "done" /\ UNCHANGED <<cur, j, sel>>
                ELSE pc' = "scan" /\ sel' = Append(sel, n) /\ cur' = n /\ j' = n
       ELSE j' = j + 1 /\ UNCHANGED <<cur, sel, pc>>
    /\ UNCHANGED <<av, w, cn>>
Next == Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
\* declarative: doubled units, so that the middle of every uncovered interval is a point
Covers(S, x) == \E i \in S : Abs(x - 2 * av[i]) <= 2 * Rad[i]
Points == (2 * av[1])..(2 * av[Len(av)])
SelSet == {sel[k] : k \in 1..Len(sel)}
Coverable == {x \in Points : Covers(1..Len(av), x)}
CoversAll == Done => \A x \in Coverable : Covers(SelSet, x)
EndsIn == Done => sel[1] = 1 /\ sel[Len(sel)] = Len(av) /\ \A k \in 1..(Len(sel) - 1) : sel[k] < sel[k + 1]
Minimal == Done => \A S \in SUBSET (1..Len(av)) :
    1 \in S /\ Len(av) \in S /\ (\A x \in Coverable : Covers(S, x)) => Cardinality(S) >= Len(sel)
Characterised == Done => SelectionRight(av, Rad, 0, sel)
\* the predicate used on traces implies coverage and minimality
Sound == Done => \A S \in SUBSET (1..Len(av)) :
    LET q == SortSeq(SetToSeq(S), <) IN
    S # {} /\ SelectionRight(av, Rad, 0, q) => (\A x \in Coverable : Covers(S, x)) /\ Cardinality(S) = Len(sel)
Terminates == <>Done
===============================================================================
