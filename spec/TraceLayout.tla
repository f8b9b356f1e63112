------------------------------ MODULE TraceLayout ------------------------------
(* Conformance of array arguments of any layout (C25).  "kernel": a small function of integers, given as memory and views: TLC reads the view
   and computes the function.  "same": any function of any array, against its result for a contiguous float32 copy. *)
EXTENDS Layout, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
View(r) == [off |-> r.off, shape |-> r.shape, strides |-> r.strides]
Clean == {"ValueError", "TypeError"}
Want(e) ==
    LET x == Values(e.mem, View(e.views[1])) IN
    CASE e.f = "roll" -> Roll(x, e.arg)
      [] e.f = "rolladd" -> RollAdd(x, Values(e.mem, View(e.views[2])), e.arg)
      [] e.f = "prefix" -> Prefix(x, e.arg)
      [] e.f = "median" -> Medians(x, e.arg)
      [] e.f = "groups" -> Groups(x, e.arg)
      [] e.f = "rows" -> x                                            \* ffa2 of one row
Kernel(e) ==
    IF e.after # e.mem THEN "input modified"
    ELSE IF e.out # "ok" THEN
        IF e.out \notin Clean THEN e.out
        ELSE IF e.plain /\ \A i \in 1..Len(e.views) : Contiguous(View(e.views[i])) THEN "contiguous array refused" ELSE "ok"
    ELSE IF e.res # Want(e) THEN "result"
    ELSE IF e.again # e.res THEN "not repeatable"
    ELSE IF e.shared THEN "result shares memory with the input" ELSE "ok"
Same(e) ==
    IF e.ref # "ok" THEN "contiguous array refused: " \o e.ref
    ELSE IF ~e.clean THEN "input modified"
    ELSE IF e.out # "ok" THEN IF e.out \in Clean /\ ~e.plain THEN "ok" ELSE e.out
    ELSE IF e.shared THEN "result shares memory with the input"
    ELSE IF ~e.rep THEN "not repeatable"
    ELSE IF ~e.form THEN "shape or type of the result"
    ELSE IF e.dev \notin 0..e.tol THEN "result differs from that of a contiguous float32 copy" ELSE "ok"
Verdict(e) == CASE e.e = "kernel" -> Kernel(e) [] e.e = "same" -> Same(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
