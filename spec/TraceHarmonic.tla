---------------------------- MODULE TraceHarmonic ----------------------------
(* Conformance of htest (C13) *)
EXTENDS Harmonic, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

IsPow2(n) == \E k \in 0..20 : n = 2 ^ k
\* the verdicts allowed for the fraction f (fast over slow) of event e
Verdicts(e, f) ==
    LET a == Min2(e.fF, e.fH) b == Max2(e.fF, e.fH)
        dFast == IF e.fF > e.fH THEN e.dF ELSE IF e.fH > e.fF THEN e.dH ELSE e.dFastEq
        ex == IsPow2(f[2])
        v == And3({PhaseOK(a, b, f, e.fu, e.tobs, dFast, e.du, e.pl, e.plu, ex /\ e.dyadic),
                   DmOK(Abs(e.mF - e.mH), e.mu, e.fn, e.fx, e.dF, e.fF, e.dH, e.fH, e.du, e.fu, e.dl, e.dlu),
                   SnrOK(e.sF, e.sH, f, e.sl, ex /\ IsPow2(f[1] * f[2]) /\ \E k \in 0..10 : f[1] * f[2] = 4 ^ k)})
    IN  IF v = "yes" THEN {TRUE} ELSE IF v = "no" THEN {FALSE} ELSE {TRUE, FALSE}
Test(e) ==
    LET a == Min2(e.fF, e.fH) b == Max2(e.fF, e.fH)
        \* the reported fraction is H.freq / F.freq
        f == IF e.fH >= e.fF THEN <<e.p, e.q>> ELSE <<e.q, e.p>>
    IN  IF e.out # "ok" THEN "failed: " \o e.out
        ELSE IF ~IsClosest(a, b, e.dmax, f) THEN "not the closest fraction"
        ELSE IF e.related \notin Verdicts(e, f) THEN (IF e.related THEN "wrongly related" ELSE "wrongly not related")
        ELSE "ok"
Args(e) == IF e.bad = (e.out = "ValueError") THEN "ok" ELSE "tobs or band not checked"
Verdict(e) == CASE e.e = "test" -> Test(e) [] e.e = "args" -> Args(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
