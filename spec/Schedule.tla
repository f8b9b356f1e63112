------------------------------- MODULE Schedule -------------------------------
(* The search stage as a whole (C16): the peaks held at the end are the union, over selected trials and ranges, of what searching
   that trial in that range finds; sorted by period; each labelled with its own trial. *)
EXTENDS Num, FiniteSets, TLC, SequencesExt

\* tasks are (trial, range) pairs; found[t] is the sequence of peaks of task t.  All peaks due, as one sequence
Due(tasks, found) == FoldLeft(LAMBDA a, t : a \o found[t], <<>>, tasks)

\* every due peak is held as often as it is due, and nothing else.  Same(a, b): the same peak
SamePeaks(due, held, Same(_, _)) ==
    /\ Len(due) = Len(held)
    /\ \A i \in 1..Len(due) :
          Cardinality({j \in 1..Len(due) : Same(due[i], due[j])}) = Cardinality({j \in 1..Len(held) : Same(due[i], held[j])})
SortedBy(held, key) == \A i \in 1..(Len(held) - 1) : held[i][key] <= held[i + 1][key]
===============================================================================
