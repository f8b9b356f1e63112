---------------------------- MODULE TraceSchedule -----------------------------
(* Conformance of Pipeline.search (C16).  due[t][r]: peaks found through the public functions in selected trial t and range r. *)
EXTENDS Schedule, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Same(a, b) ==
    /\ a.w = b.w /\ a.iw = b.iw /\ a.ip = b.ip /\ a.dm = b.dm
    /\ Abs(a.per - b.per) <= 4 /\ Abs(a.f - b.f) <= 4 /\ Abs(a.s - b.s) <= 30 /\ Abs(a.du - b.du) <= 4
Search(e) ==
    LET fits(t, r) == e.len[t] > e.need[r]          \* data length > fpmin x shortest period, in common units
        due == TLCEval(FoldLeft(LAMBDA a, t : FoldLeft(LAMBDA b, r : IF fits(t, r) THEN b \o e.due[t][r] ELSE b, a, [r \in 1..Len(e.need) |-> r]),
                                <<>>, [t \in 1..Len(e.len) |-> t]))
    IN  IF e.out # "ok" THEN "failed: " \o e.out
        ELSE IF ~SamePeaks(due, e.peaks, Same) THEN "peaks are not the union over trials and ranges"
        ELSE IF ~SortedBy(e.peaks, "per") THEN "peaks are not sorted by period"
        ELSE "ok"
\* a file became unreadable after the trials were selected
Lost(e) ==
    IF e.selected /\ ~e.raised THEN "a trial that could not be read was passed over"
    ELSE IF ~e.selected /\ e.raised THEN "a file that is not selected was needed"
    ELSE "ok"
Verdict(e) == CASE e.e = "lost" -> Lost(e) [] e.e = "search" -> Search(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
