--------------------------- MODULE TracePeakDetect ---------------------------
(* Conformance of find_peaks (C11).  Event: x: frequencies in 1/65536 Fourier bins, s[w]: S/N of each width in 1/65536,
   r: radius, smin, span / seg: frequency span and segment width (1/1000 Fourier bin), thr[w]: reported polynomial at
   every trial (1/65536), pc[w]: the same at the control points (1/1024), u: position of the control points in
   log(frequency), -10000..10000, nco[w]: number of reported coefficients, peaks: the reported peaks in order. *)
EXTENDS PeakDetect, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Dynamic(e) == Used(e.n, e.span, e.seg, e.minseg)
FitRight(e, w) ==
    LET m == Segments(e.span, e.seg) p == e.n \div m
        res == TLCEval([j \in 1..m |-> Control(SegOf(e.s[w], p, j), e.ns10) - e.pc[w][j]])
    IN  /\ Len(e.pc[w]) = m /\ e.nco[w] = e.deg + 1 /\ IsFit(res, e.u, e.deg, 10000)
StaticRight(e, w) == \A i \in 1..e.n : Abs(e.thr[w][i] - e.smin) <= 2

\* peaks of width w, reported in any order
OfWidth(e, w) == {k \in 1..Len(e.peaks) : e.peaks[k].iw = w - 1}
PeaksRight(e, w) ==
    LET s == TLCEval(e.s[w])
        dyn == TLCEval(Dynamic(e))
        thr == TLCEval(IF dyn THEN e.thr[w] ELSE [i \in 1..e.n |-> e.smin])
        x == TLCEval(e.x)
        sel == TLCEval(Selected(s, thr, e.smin))
        gs == TLCEval(Groups(sel, x, e.r))
        ks == OfWidth(e, w)
        ips == {e.peaks[k].ip + 1 : k \in ks}
        near == \E i \in 2..Len(sel) : LET d == Abs(x[sel[i - 1]] - x[sel[i]]) - e.r IN ~e.exact /\ Abs(d) <= 2
    IN  \/ dyn /\ Ambiguous(s, thr)
        \/ near
        \/ /\ Cardinality(ips) = Cardinality(ks) /\ Cardinality(ks) = Cardinality(gs)
           /\ \A g \in gs : Cardinality({i \in 1..Len(g) : g[i] \in ips}) = 1 /\ \E i \in 1..Len(g) : g[i] \in ips /\ g[i] \in Best(g, s)
Attr(e, k) ==
    LET p == e.peaks[k] IN
    /\ p.iw \in 0..(Len(e.ws) - 1) /\ p.ip \in 0..(e.n - 1)
    /\ p.s = e.s[p.iw + 1][p.ip + 1] /\ p.s > e.smin
    /\ p.w = e.ws[p.iw + 1]
    /\ p.per \in -1..1 /\ p.frq \in -1..1 /\ p.dcy \in -1..1 /\ p.dm
Find(e) ==
    IF e.out # "ok" THEN "failed: " \o e.out
    ELSE IF e.nco = <<>> THEN "threshold not reported for every width"
    ELSE IF \E k \in 1..Len(e.peaks) : ~Attr(e, k) THEN "attributes of a peak"
    ELSE IF \E k \in 1..(Len(e.peaks) - 1) : e.peaks[k].s < e.peaks[k + 1].s THEN "not sorted by decreasing S/N"
    ELSE IF \E w \in 1..Len(e.ws) : IF Dynamic(e) THEN ~FitRight(e, w) ELSE ~StaticRight(e, w) THEN "threshold"
    ELSE IF \E w \in 1..Len(e.ws) : ~PeaksRight(e, w) THEN "not one peak, the best trial, per significant group"
    ELSE IF ~e.pure THEN "periodogram modified"
    ELSE "ok"
Verdict(e) == CASE e.e = "find" -> Find(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
