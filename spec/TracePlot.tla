------------------------------- MODULE TracePlot -------------------------------
(* Conformance of plots (C28).  "candidate": what the figure of a candidate shows, and what the candidate is made of; "periodogram": the line
   drawn; "step": one operation of a history of figures, with the number of figures open after it. *)
EXTENDS Plot, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, open
Near(a, b) == Abs(a - b) <= 1
Digits == [n \in {"Period", "DM", "Width", "Duty cycle", "S/N"} |->
             CASE n = "Period" -> 6 [] n = "DM" -> 2 [] n = "Width" -> 0 [] n = "Duty cycle" -> 2 [] n = "S/N" -> 1]
Names == DOMAIN Digits \cup {"Source", "RA", "Dec", "MJD", "UTC"}
Table(t, w) ==
    IF DOMAIN t # Names THEN "lines of the table"
    ELSE IF \E n \in Names : ~t[n].once \/ ~t[n].unit THEN "units of the table"
    ELSE IF \E n \in DOMAIN Digits : t[n].kind # "num" \/ t[n].k # Digits[n] \/ ~Rounded(w[n], t[n].n, t[n].k) THEN "number in the table"
    ELSE IF ~t["Source"].same THEN "source name"
    ELSE IF w.sky = <<>> /\ (t["RA"].kind # "blank" \/ t["Dec"].kind # "blank") THEN "unknown position is not left blank"
    ELSE IF w.sky # <<>> /\ (t["RA"].kind # "angle" \/ t["Dec"].kind # "angle") THEN "position not shown"
    ELSE IF w.sky # <<>> /\ (~AngleShown(t["RA"].sign, w.sky[1], t["RA"].s) \/ ~AngleShown(t["Dec"].sign, w.sky[2], t["Dec"].s)) THEN "position"
    ELSE IF w.mjd = <<>> /\ (t["MJD"].kind # "blank" \/ t["UTC"].kind # "blank") THEN "unknown date is not left blank"
    ELSE IF w.mjd # <<>> /\ (t["MJD"].kind # "num" \/ t["UTC"].kind # "date") THEN "date not shown"
    ELSE IF w.mjd # <<>> /\ (t["MJD"].k # 6 \/ ~Rounded(<<w.mjd[1], w.mjd[2]>>, t["MJD"].n, 6)) THEN "MJD"
    ELSE IF w.mjd # <<>> /\ LET s == t["UTC"].s IN ~DateShown(w.mjd[1], w.mjd[3], s[1], s[2], s[3], s[4], s[5], s[6]) THEN "UTC"
    ELSE "ok"
Candidate(e) ==
    LET rows == e.of.rows n == Len(rows) IN
    IF e.panels # 4 THEN "panels"
    ELSE IF ~e.untouched THEN "plotting changed the candidate"
    ELSE IF ~e.other THEN "drawn in another figure"
    ELSE IF e.image.rows # [i \in 1..n |-> Ext(rows[i])] THEN "sub-integrations"
    ELSE IF \E j \in 1..Len(e.image.x) : ~Near(e.image.x[j], (j - 1) * 1000) THEN "phase bins of the sub-integrations"
    ELSE IF \E i \in 1..n : ~Near(e.image.y[i], (1000 * (i - 1)) + 500) THEN "times of the sub-integrations"
    ELSE IF e.bars.h2 # Heights2(rows) THEN "profile"
    ELSE IF \E j \in 1..Len(e.bars.x) : ~Near(e.bars.x[j], (j - 1) * 1000) THEN "phase bins of the profile"
    ELSE IF e.curve.points # DmCurve(e.of.peaks) THEN "DM curve"
    ELSE IF ~e.image.seen \/ ~e.bars.seen \/ ~e.curve.seen THEN "out of view"
    ELSE Table(e.table, e.of.want)
Pgram(e) ==
    IF e.axes # 1 \/ e.count # 1 THEN "figure of the periodogram"
    ELSE IF ~e.untouched THEN "plotting changed the periodogram"
    ELSE IF e.points # PeriodogramCurve(e.per, e.snrs, e.iwidth) THEN "periodogram"
    ELSE IF ~e.seen THEN "out of view"
    ELSE IF e.title # e.width THEN "width in the title"
    ELSE "ok"
After(op) == CASE op \in {"plot", "figure", "show"} -> open + 1 [] op = "close" -> open - 1 [] OTHER -> open
Step(e) ==
    IF e.open # After(e.op) THEN e.op \o ": figures left open, or closed"
    ELSE IF ~e.png THEN "file"
    ELSE IF e.shown # (IF e.op = "show" THEN 1 ELSE 0) THEN "show"
    ELSE IF ~e.drew THEN "nothing drawn"
    ELSE IF ~e.untouched THEN "drawn in another figure"
    ELSE "ok"
Verdict(e) == CASE e.e = "candidate" -> Candidate(e) [] e.e = "periodogram" -> Pgram(e) [] e.e = "step" -> Step(e) [] e.e = "start" -> "ok"
                [] OTHER -> e.e
Init == l = 1 /\ open = 0
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET e == Trace[l] v == Verdict(e) IN
          /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
          /\ open' = (CASE e.e = "start" -> 0 [] e.e = "step" -> e.open [] OTHER -> open)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1 /\ UNCHANGED open
===============================================================================
