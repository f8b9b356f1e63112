------------------------------ MODULE MC_Filter -------------------------------
(* The filtering stage: three successive filters, then the cap on the sorted remainder; for all small cluster lists. *)
EXTENDS Flag, SequencesExt
CONSTANTS NMAX, VMAX
VARIABLES cs, f, cur, pc
vars == <<cs, f, cur, pc>>
Cl == [dm : 0..VMAX, s : 0..VMAX, flag : BOOLEAN]
Opt == {<<>>} \union {<<v>> : v \in 0..VMAX}
Init ==
    /\ \E n \in 0..NMAX : cs \in [1..n -> Cl]
    /\ f \in [dm : Opt, s : Opt, rem : BOOLEAN, max : 0..NMAX]
    /\ cur = [i \in 1..Len(cs) |-> i] /\ pc = "dm"
Stage(a, b, T(_)) == pc = a /\ pc' = b /\ cur' = SelectSeq(cur, T) /\ UNCHANGED <<cs, f>>
Next ==
    \/ Stage("dm", "snr", LAMBDA i : f.dm = <<>> \/ cs[i].dm >= f.dm[1])
    \/ Stage("snr", "harm", LAMBDA i : f.s = <<>> \/ cs[i].s >= f.s[1])
    \/ Stage("harm", "cap", LAMBDA i : ~(f.rem /\ cs[i].flag))
    \/ /\ pc = "cap" /\ pc' = "done" /\ UNCHANGED <<cs, f>>
       /\ cur' = (IF f.max = 0 THEN cur
                  ELSE LET o == SortSeq(cur, LAMBDA a, b : cs[a].s > cs[b].s) IN SubSeq(o, 1, Min2(f.max, Len(o))))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == pc = "done" => FilterRight(cs, f, {cur[k] : k \in 1..Len(cur)})
NoDup == Cardinality({cur[k] : k \in 1..Len(cur)}) = Len(cur)
Terminates == <>(pc = "done")
===============================================================================
