------------------------------ MODULE DmSelect --------------------------------
(* Selection of the DM trials to process (C15).  av: available trials in range, increasing; rad[i]: smearing radius of trial i
   (same units); two trials are linked when every DM between them is within the radius of one of them. *)
EXTENDS Num, FiniteSets, TLC, Sequences

Gap(av, rad, i, j) == (av[j] - rad[j]) - (av[i] + rad[i])
\* tol > 0: pairs nearer the limit than the uncertainty of the radii count as linked (Linked) or not (Surely)
Linked(av, rad, tol, i, j) == Gap(av, rad, i, j) <= tol
Surely(av, rad, tol, i, j) == Gap(av, rad, i, j) <= -tol

\* fewest trials from the first to the last one, with steps to linked trials, or to the next one across a hole
RECURSIVE Fewest(_, _, _, _, _)
Fewest(av, rad, tol, i, acc) ==
    IF i = Len(av) THEN acc
    ELSE LET c == {j \in (i + 1)..Len(av) : j = i + 1 \/ Surely(av, rad, tol, i, j)}
             m == CHOOSE j \in c : \A k \in c : k <= j
         IN  Fewest(av, rad, tol, TLCEval(m), acc + 1)

\* sel: indices into av
SelectionRight(av, rad, tol, sel) ==
    /\ sel # <<>> /\ sel[1] = 1 /\ sel[Len(sel)] = Len(av)
    /\ \A k \in 1..(Len(sel) - 1) : sel[k] < sel[k + 1] /\ (sel[k + 1] = sel[k] + 1 \/ Linked(av, rad, tol, sel[k], sel[k + 1]))
    /\ Len(sel) <= Fewest(av, rad, tol, 1, 1)
===============================================================================
