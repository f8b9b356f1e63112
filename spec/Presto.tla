------------------------------- MODULE Presto ---------------------------------
(* PRESTO .inf files (C22): a fixed number of common lines, pairs of on/off bins when there are breaks, the EM band, and a block of
   lines that depends on the band.  A line is [std |-> has it the standard layout, v |-> the text of the value]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NHead, TelAt, BreaksAt,                     \* number of common lines; which of them hold the telescope and the presence of breaks
          HeadOK(_, _), Truth(_), IsPair(_), BlockLen(_), BlockOK(_, _, _), Fake
\* one step of the parser over the lines.  s: [ph, i, pairs, band, left, why]
Begin == [ph |-> "head", i |-> 1, pairs |-> <<>>, band |-> 0, at |-> 0, why |-> "none"]
Refuse(s, why) == [s EXCEPT !.ph = "refused", !.why = why]
Step(ls, s) ==
    LET ln == ls[s.i] short == s.i > Len(ls) IN
    CASE s.ph = "head" ->
            IF short THEN Refuse(s, "short") ELSE IF ~ln.std THEN Refuse(s, "layout")
            ELSE IF s.i = TelAt /\ ln.v = Fake THEN Refuse(s, "artificial")
            ELSE IF ~HeadOK(s.i, ln.v) THEN Refuse(s, "value")
            ELSE IF s.i < NHead THEN [s EXCEPT !.i = @ + 1]
            ELSE [s EXCEPT !.i = @ + 1, !.ph = IF Truth(ls[BreaksAt].v) THEN "pairs" ELSE "band"]
      [] s.ph = "pairs" ->
            IF ~short /\ ln.std /\ IsPair(ln.v) THEN [s EXCEPT !.i = @ + 1, !.pairs = Append(@, ln.v)] ELSE [s EXCEPT !.ph = "band"]
      [] s.ph = "band" ->
            IF short THEN Refuse(s, "short") ELSE IF ~ln.std THEN Refuse(s, "layout")
            ELSE IF BlockLen(ln.v) = 0 THEN Refuse(s, "band")
            ELSE [s EXCEPT !.ph = "block", !.band = s.i, !.i = @ + 1, !.at = 1]
      [] s.ph = "block" ->
            IF s.at > BlockLen(ls[s.band].v) THEN [s EXCEPT !.ph = "done"]
            ELSE IF short THEN Refuse(s, "short") ELSE IF ~ln.std THEN Refuse(s, "layout")
            ELSE IF ~BlockOK(ls[s.band].v, s.at, ln.v) THEN Refuse(s, "value")
            ELSE [s EXCEPT !.i = @ + 1, !.at = @ + 1]
Halted(s) == s.ph \in {"done", "refused"}
RECURSIVE Run(_, _)
Run(ls, s) == IF Halted(s) THEN s ELSE Run(ls, TLCEval(Step(ls, s)))
Parse(ls) == Run(ls, Begin)
\* ---- the layout, declaratively
Layout(ls, k, blk) ==                                 \* with k pairs and a block of blk lines
    /\ Len(ls) >= NHead + k + 1 + blk
    /\ \A i \in 1..(NHead + k + 1 + blk) : ls[i].std
    /\ \A i \in 1..NHead : HeadOK(i, ls[i].v)
    /\ ls[TelAt].v # Fake
    /\ \A i \in 1..k : IsPair(ls[NHead + i].v)
    /\ (k > 0 => Truth(ls[BreaksAt].v))
    /\ BlockLen(ls[NHead + k + 1].v) = blk
    /\ blk > 0
    /\ \A i \in 1..blk : BlockOK(ls[NHead + k + 1].v, i, ls[NHead + k + 1 + i].v)
===============================================================================
