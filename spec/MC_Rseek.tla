------------------------------- MODULE MC_Rseek -------------------------------
(* The reporting stage against the declarative table: every set of peaks and radius.  Machine: sort by frequency, cut, keep the brightest
   of each group (any of the brightest), sort by S/N. *)
EXTENDS Rseek
CONSTANTS NMAX, FMAX, SMAX, RMAX
VARIABLES P, r, ph, todo, table
vars == <<P, r, ph, todo, table>>
Peaks == [f : 0..FMAX, s : 1..SMAX]
Init == /\ P \in UNION {[1..n -> Peaks] : n \in 0..NMAX} /\ r \in 0..RMAX
        /\ ph = "pick" /\ todo = Groups(P, r) /\ table = <<>>
Pick == /\ ph = "pick" /\ todo # <<>>
        /\ \E i \in Brightest(P, Head(todo)) : table' = Append(table, i)
        /\ todo' = Tail(todo) /\ UNCHANGED <<P, r, ph>>
Sort == /\ ph = "pick" /\ todo = <<>> /\ ph' = "done"
        /\ table' = SortSeq(table, LAMBDA a, b : P[a].s > P[b].s) /\ UNCHANGED <<P, r, todo>>
Next == Pick \/ Sort
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == ph = "done" => Reports(P, r, table)
\* both forms of the definition agree, on the table produced and on others
Forms == ph = "done" => /\ ReportsFast(P, r, table)
                        /\ \A t \in {Reverse(table), <<>>, table \o <<1>>, SubSeq(table, 1, Len(table) - 1)} :
                             Len(P) > 0 => (Reports(P, r, t) <=> ReportsFast(P, r, t))
NoneWhenNone == ph = "done" => (table = <<>> <=> P = <<>>)
Terminates == <>(ph = "done")
===============================================================================
