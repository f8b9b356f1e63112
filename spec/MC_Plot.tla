-------------------------------- MODULE MC_Plot --------------------------------
(* Machines of the plots.  Peaks are met one by one and only the best S/N of each DM is kept: what is left is the curve of the plot.
   A calendar is turned day by day: its day number is the MJD of the date.  A wheel is read for one and a half turns: the panel. Figures are
   opened, drawn, saved and closed: only the caller's figures and those returned to him stay open. *)
EXTENDS Plot
CONSTANTS NPEAKS, DMAX, DAYS, VMAX, NMAX, FMAX
VARIABLES mode, peaks, best, cal, wheel, figs
vars == <<mode, peaks, best, cal, wheel, figs>>
None == [d \in 1..DMAX |-> -1]
Rows == UNION {[1..n -> 0..VMAX] : n \in 1..NMAX}
Init == /\ mode \in {"peaks", "calendar", "wheel", "figures"}
        /\ peaks = <<>> /\ best = None
        /\ cal = [day |-> 0, y |-> 1858, m |-> 11, d |-> 17]
        /\ wheel \in IF mode = "wheel" THEN {[row |-> r, at |-> 1, out |-> <<>>] : r \in Rows} ELSE {[row |-> <<0>>, at |-> 1, out |-> <<>>]}
        /\ figs = [open |-> {}, mine |-> {}, next |-> 1, wrote |-> 0]
Meet == /\ mode = "peaks" /\ Len(peaks) < NPEAKS
        /\ \E d \in 1..DMAX, s \in 0..VMAX :
             /\ peaks' = Append(peaks, <<d, s>>)
             /\ best' = [best EXCEPT ![d] = Max2(@, s)]
        /\ UNCHANGED <<mode, cal, wheel, figs>>
Tomorrow(c) == IF c.d < MonthDays(c.y, c.m) THEN [c EXCEPT !.day = @ + 1, !.d = @ + 1]
               ELSE IF c.m < 12 THEN [c EXCEPT !.day = @ + 1, !.d = 1, !.m = @ + 1]
               ELSE [day |-> c.day + 1, y |-> c.y + 1, m |-> 1, d |-> 1]
Turn == /\ mode = "calendar" /\ cal.day < DAYS
        /\ cal' = Tomorrow(cal) /\ UNCHANGED <<mode, peaks, best, wheel, figs>>
Roll == /\ mode = "wheel" /\ 2 * (Len(wheel.out) + 1) <= 3 * Len(wheel.row)
        /\ wheel' = [wheel EXCEPT !.out = Append(@, wheel.row[wheel.at]), !.at = (@ % Len(wheel.row)) + 1]
        /\ UNCHANGED <<mode, peaks, best, cal, figs>>
Figure == /\ mode = "figures" /\ figs.next <= FMAX
          /\ \/ figs' = [figs EXCEPT !.open = @ \cup {figs.next}, !.mine = @ \cup {figs.next}, !.next = @ + 1]                 \* plot, or figure
             \/ figs' = [figs EXCEPT !.next = @ + 1, !.wrote = @ + 1]                                                        \* savefig: opens and closes
             \/ \E f \in figs.open : figs' = [figs EXCEPT !.open = @ \ {f}, !.mine = @ \ {f}, !.next = @ + 1]
          /\ UNCHANGED <<mode, peaks, best, cal, wheel>>
Next == Meet \/ Turn \/ Roll \/ Figure
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
CurveIsBest == peaks # <<>> =>
    LET c == DmCurve(peaks) IN
    /\ \A i \in 1..(Len(c) - 1) : c[i][1] < c[i + 1][1]
    /\ {c[i] : i \in 1..Len(c)} = {<<d, best[d]>> : d \in {x \in 1..DMAX : best[x] >= 0}}
Calendar == Mjd(cal.y, cal.m, cal.d) = cal.day /\ cal.d \in 1..MonthDays(cal.y, cal.m)
Panel == 2 * (Len(wheel.out) + 1) > 3 * Len(wheel.row) => wheel.out = Ext(wheel.row)
\* no more than half of the bars lie below the base line, nor above it
Base == mode = "wheel" => LET h == Heights2(<<wheel.row>>) n == Len(h)
                              below == Cardinality({i \in 1..n : h[i] < 0}) above == Cardinality({i \in 1..n : h[i] > 0}) IN
                          2 * below <= n /\ 2 * above <= n
Owned == figs.open = figs.mine
Numbers == mode # "calendar" \/ cal.day # 1 \/ \A v \in 0..120 : \A s \in 0..120 :
    Rounded(<<v \div 100, (v % 100) * 10000000>>, <<s \div 10, s % 10>>, 1) <=> Abs((10 * s) - v) <= 5
Terminates == mode = "calendar" ~> cal.day = DAYS
===============================================================================
