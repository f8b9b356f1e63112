----------------------------- MODULE TraceConfig ------------------------------
(* Conformance of configuration checks (C20) *)
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Conf(e) ==
    LET a == Accepted({e.muts[i] : i \in 1..Len(e.muts)}) IN
    CASE a = "yes" ->
            IF e.out # "ok" THEN "valid configuration refused: " \o e.out
            ELSE IF \E i \in 1..Len(e.got) : ~e.got[i].eq THEN "accepted value changed"
            ELSE IF \E i \in 1..Len(e.got) : Converted(KeyOf(e.muts[i].k)) /\ TokenTable[e.muts[i].t].c = "int" /\ e.got[i].c # "float"
                 THEN "number not converted"
            ELSE "ok"
      [] a = "no" -> IF e.out = "InvalidPipelineConfig" THEN "ok" ELSE "invalid configuration: " \o e.out
      [] OTHER -> IF e.out \in {"ok", "InvalidPipelineConfig"} THEN "ok" ELSE "unexpected error: " \o e.out
Ranges(e) ==
    IF RangesRight(e.ranges, e.tmax)
    THEN IF e.out = "ok" THEN "ok" ELSE "valid ranges refused: " \o e.out
    ELSE IF e.out # "InvalidSearchRange" THEN "invalid ranges: " \o e.out
    ELSE IF ~e.clean THEN "something written before the ranges were refused"
    ELSE "ok"
Verdict(e) == CASE e.e = "conf" -> Conf(e) [] e.e = "ranges" -> Ranges(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
