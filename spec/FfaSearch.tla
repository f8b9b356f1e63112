------------------------------ MODULE FfaSearch ------------------------------
(* Top level search of one time series (C10): pre-processing stages and width trials *)
EXTENDS Integers, Sequences, FiniteSets

\* Pre-processing: the stages applied, in order, to the data that are searched
Stages(deredden, already) == (IF deredden THEN <<"deredden">> ELSE <<>>) \o (IF already THEN <<>> ELSE <<"normalise">>)

-----------------------------------------------------------------------------
(* Width trials: ducy_max = dn/dd, wtsp = wn/wd.  A product that is a whole number in exact arithmetic but whose
   factors are not exactly representable may be computed just below it. *)
RECURSIVE PowerOf2(_)
PowerOf2(d) == d = 1 \/ (d % 2 = 0 /\ PowerOf2(d \div 2))
Floors(x, num, den) ==
    LET q == (x * num) \div den
    IN  IF (x * num) % den = 0 /\ ~PowerOf2(den) THEN {q, q - 1} ELSE {q}
Max2(a, b) == IF a > b THEN a ELSE b
Caps(b0, dn, dd) == {Max2(1, c) : c \in Floors(b0, dn, dd)}
NextWidths(w, wn, wd) == {Max2(w + 1, v) : v \in Floors(w, wn, wd)}

\* ws is a complete sequence of width trials
IsWidths(ws, b0, dn, dd, wn, wd) ==
    /\ Len(ws) >= 1 /\ ws[1] = 1
    /\ \A i \in 1..(Len(ws) - 1) : ws[i + 1] \in NextWidths(ws[i], wn, wd)
    /\ \E cap \in Caps(b0, dn, dd) : ws[Len(ws)] <= cap /\ \E v \in NextWidths(ws[Len(ws)], wn, wd) : v > cap
==============================================================================
