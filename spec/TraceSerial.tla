----------------------------- MODULE TraceSerial ------------------------------
(* Conformance of saving and loading (C23): what was loaded must be what the specification's Loaded gives for the saved value *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
S == INSTANCE Serial WITH Current <- "CURRENT"
\* the difference is located, for the report
RECURSIVE Where(_, _)
Where(a, b) ==
    IF S!Same(a, b) THEN ""
    ELSE IF a.t # b.t THEN "type " \o b.t \o " instead of " \o a.t
    ELSE IF a.s # b.s THEN "text or dtype"
    ELSE IF a.k # b.k THEN "keys"
    ELSE IF Len(a.c) # Len(b.c) THEN "number of items"
    ELSE IF \E i \in 1..Len(a.c) : ~S!Same(a.c[i], b.c[i])
    THEN LET i == CHOOSE i \in 1..Len(a.c) : ~S!Same(a.c[i], b.c[i]) IN
         (IF i <= Len(a.k) THEN a.k[i] ELSE a.t) \o ": " \o Where(a.c[i], b.c[i])
    ELSE "value of a " \o a.t
RoundTrip(e) ==
    IF e.out # "ok" THEN "not saved or not loaded: " \o e.out
    ELSE LET want == S!Loaded(e.orig) IN
    IF ~S!Same(want, e.loaded) THEN "loaded: " \o Where(want, e.loaded)
    ELSE IF ~S!Same(want, e.second) THEN "loaded again: " \o Where(want, e.second)
    ELSE IF ~S!Same(want, e.resaved) THEN "saved and loaded again: " \o Where(want, e.resaved)
    ELSE IF ~S!Same(e.orig, e.after) THEN "original changed: " \o Where(e.orig, e.after)
    ELSE IF e.unwritable # 0 THEN "arrays that cannot be written to"
    ELSE IF ~S!Same(want, e.alone) THEN "changed by changing another loaded value: " \o Where(want, e.alone)
    ELSE "ok"
\* the same operation on the original and on the loaded object
Use(e) ==
    IF e.outa # e.outb THEN e.op \o ": " \o e.outb \o " instead of " \o e.outa
    ELSE IF ~S!Same(e.a, e.b) THEN e.op \o ": " \o Where(e.a, e.b)
    ELSE "ok"
Verdict(e) == CASE e.e = "rt" -> RoundTrip(e) [] e.e = "use" -> Use(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
