------------------------------- MODULE RunMed -------------------------------
(***************************************************************************)
(* Running medians.  Data x: sequence of integers, sample i is x[i + 1].   *)
(***************************************************************************)
EXTENDS Num, TLC

\* data extended by their edge values
Ext(x, i) == x[Min2(Max2(i, 0), Len(x) - 1) + 1]
\* v is the median of the w samples centred on i: at most half of them below, and at most half above
IsMedian(x, w, i, v) ==
    LET h == w \div 2
        below == SumF(LAMBDA k : IF Ext(x, k) < v THEN 1 ELSE 0, i - h, i + h)
        above == SumF(LAMBDA k : IF Ext(x, k) > v THEN 1 ELSE 0, i - h, i + h)
    IN  below <= h /\ above <= h
Median(x, w, i) ==
    LET h == w \div 2
        k == CHOOSE k \in (i - h)..(i + h) : IsMedian(x, w, i, Ext(x, k))
    IN  Ext(x, k)
ValidWindow(x, w) == w % 2 = 1 /\ w < Len(x)

\* The fast one: groups of sf samples are added up
Scrunch(w, minpts) == Max2(1, w \div minpts)
Groups(x, sf) == [g \in 1..(Len(x) \div sf) |-> SumF(LAMBDA k : x[k], (g - 1) * sf + 1, g * sf)]
ValidFast(x, w, minpts) ==
    /\ minpts % 2 = 1
    /\ IF Scrunch(w, minpts) = 1 THEN ValidWindow(x, w) ELSE ValidWindow(Groups(x, Scrunch(w, minpts)), minpts)
\* Its value at sample i times 2 sf^2, from the medians r of the group sums.  Group g (0-based) is centred on
\* g sf + (sf - 1) / 2; linear interpolation between centres, constant beyond the first and last one.
Interp(r, sf, i) ==
    LET t == 2 * i - (sf - 1)
        g == t \div (2 * sf)
    IN  IF t <= 0 THEN 2 * sf * r[1]
        ELSE IF g >= Len(r) - 1 THEN 2 * sf * r[Len(r)]
        ELSE (2 * sf - (t % (2 * sf))) * r[g + 1] + (t % (2 * sf)) * r[g + 2]
=============================================================================
