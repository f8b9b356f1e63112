------------------------------ MODULE TraceRseek ------------------------------
(* Conformance of rseek (C24) *)
EXTENDS Rseek, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* ---- command line: documented options, their defaults (f: float, i: int)
Default == [Pmin |-> "f1.0", Pmax |-> "f10.0", bmin |-> "i240", bmax |-> "i260", smin |-> "f7.0", wtsp |-> "f1.5", rmed_width |-> "f4.0",
            rmed_minpts |-> "i101", clrad |-> "f0.2"]
Value(given, o) == IF \E i \in 1..Len(given) : given[i].k = o THEN (CHOOSE g \in {given[i] : i \in 1..Len(given)} : g.k = o).v ELSE Default[o]
Args(e) ==
    IF ~e.valid THEN IF e.out = "ok" THEN "command line accepted" ELSE "ok"
    ELSE IF e.out # "ok" THEN "command line refused: " \o e.out
    ELSE IF \E o \in DOMAIN Default : e.got[o] # Value(e.given, o) THEN "option value"
    ELSE IF e.got.format # e.format \/ e.got.fname # e.fname THEN "format or file name"
    ELSE "ok"
\* ---- the table
AmbiguousGap(P, r) ==
    LET o == ByFreq(P) IN \E k \in 1..(Len(o) - 1) : LET g == P[o[k + 1]].f - P[o[k]].f IN g > 0 /\ Abs(g - r) <= 3
IndexOf(P, key) == IF \E i \in 1..Len(P) : P[i].key = key THEN CHOOSE i \in 1..Len(P) : P[i].key = key ELSE 0
Close(a, b) == Abs(a - b) <= 1
LineRight(p, ln) == /\ Close(p.p6, ln.p6) /\ Close(p.f6, ln.f6) /\ p.w = ln.w /\ Close(p.du, ln.du) /\ (p.dm1 = -1 \/ Close(p.dm1, ln.dm1))
                    /\ Close(p.sn1, ln.sn1)
Run(e) ==
    IF e.out # "ok" THEN "failed: " \o e.out
    ELSE IF Len(e.peaks) = 0 THEN IF e.none /\ e.lines = <<>> THEN "ok" ELSE "peaks reported, there are none"
    ELSE IF e.lib /\ e.none THEN "nothing reported, there are peaks"
    ELSE IF ~e.columns THEN "columns"
    ELSE LET table == [i \in 1..Len(e.rows) |-> IndexOf(e.peaks, e.rows[i])] IN
    IF e.lib /\ \E i \in 1..Len(table) : table[i] = 0 THEN "row that is not a peak of the search"
    ELSE IF e.amb \/ AmbiguousGap(e.peaks, e.r) THEN "ok"
    ELSE IF e.lib /\ ~(IF Len(e.peaks) <= 12 THEN Reports(e.peaks, e.r, table) ELSE ReportsFast(e.peaks, e.r, table))
    THEN "table is not the brightest of each group, in decreasing S/N"
    ELSE IF e.lib /\ (Len(e.lines) # Len(table) \/ \E i \in 1..Len(table) : ~LineRight(e.peaks[table[i]], e.lines[i])) THEN "printed table"
    \* from the program run as a process only the printed table is known
    ELSE IF ~e.lib THEN
        LET G == Groups(e.peaks, e.r) IN
        IF /\ Len(e.lines) = Len(G)
           /\ \A g \in 1..Len(G) : \E a \in 1..Len(e.lines) : \E i \in Brightest(e.peaks, G[g]) : LineRight(e.peaks[i], e.lines[a])
           /\ \A a \in 1..(Len(e.lines) - 1) : e.lines[a].sn1 >= e.lines[a + 1].sn1
        THEN "ok" ELSE "printed table of the program"
    ELSE "ok"
Verdict(e) == CASE e.e = "args" -> Args(e) [] e.e = "run" -> Run(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
