---------------------------- MODULE TraceDmSelect -----------------------------
(* Conformance of DMIterator / Pipeline.prepare (C15).  DMs in units of 1/1000; radii in units of 1e-6. *)
EXTENDS DmSelect, Big, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* flat radius: wmin / (KDM (1/f1^2 - 1/f2^2)), KDM = 1e6 / 241
FlatRad(e) ==
    LET f1 == BMul(BInt(e.f1), BInt(e.f1)) f2 == BMul(BInt(e.f2), BInt(e.f2))
    IN  BDiv(BMul(BMul(f1, f2), BMul(BInt(241), BInt(e.wn))), BMul(BMul(BInt(e.wd), BInt(e.fu * e.fu)), BSub(f2, f1)), 1000000000)
\* intra-channel smearing over dispersion delay: 16 n^3 f1^2 f2^2 / (A B)^2 times the DM
Smear(e) ==
    LET A == BInt(e.n * (e.f1 + e.f2) - (e.f2 - e.f1)) B == BInt(e.n * (e.f1 + e.f2) + (e.f2 - e.f1))
        n == BInt(e.n) f == BMul(BInt(e.f1), BInt(e.f2)) ab == BMul(A, B)
    IN  [num |-> TLCEval(BMul(BMulI(BMul(n, BMul(n, n)), 16000), BMul(f, f))), den |-> TLCEval(BMul(ab, ab))]
Rads(e, av) ==
    LET fl == TLCEval(FlatRad(e)) sm == TLCEval(Smear(e))
    IN  [i \in 1..Len(av) |-> Max2(fl, BDiv(BMul(sm.num, BInt(av[i])), sm.den, 1050000000))]

Avail(e) == {i \in 1..Len(e.d) :
                /\ e.start = <<>> \/ e.d[i] >= e.start[1]
                /\ e.end = <<>> \/ e.d[i] <= e.end[1]
                /\ e.cap = <<>> \/ e.d[i] <= e.cap[1]}
Dm(e) ==
    LET A == TLCEval(Avail(e))
        o == TLCEval(SortSeq(SetToSeq(A), LAMBDA a, b : e.d[a] < e.d[b]))
        av == TLCEval([k \in 1..Len(o) |-> e.d[o[k]]])
    IN  IF e.bad \/ A = {} THEN (IF e.out = "ok" THEN "no error raised: " \o e.why ELSE "ok")
        ELSE IF e.out # "ok" THEN "failed: " \o e.out
        ELSE IF \E k \in 1..Len(e.sel) : e.sel[k] \notin A THEN "selected a DM out of range or not available"
        ELSE LET sel == TLCEval([k \in 1..Len(e.sel) |-> CHOOSE i \in 1..Len(o) : o[i] = e.sel[k]])
                 rad == TLCEval(Rads(e, av))
                 av6 == [k \in 1..Len(av) |-> av[k] * 1000]
             IN  IF ~SelectionRight(av6, rad, 4, sel) THEN "wrong selection"
                 ELSE IF e.got # e.sel THEN "file of another DM"
                 ELSE IF \E k \in 1..Len(e.chunks) : FoldLeft(LAMBDA a, g : a \o g, <<>>, e.chunks[k]) # e.sel
                      THEN "chunks lose, repeat or mix up files"
                 ELSE IF \E k \in 1..Len(e.chunks) : \E g \in 1..Len(e.chunks[k]) : e.chunks[k][g] = <<>> THEN "empty chunk"
                 ELSE "ok"
Verdict(e) == CASE e.e = "dm" -> Dm(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
