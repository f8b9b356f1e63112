----------------------------- MODULE TraceSearch ----------------------------
(* Conformance of recorded periodograms to the trial grid (C05) and of their S/N values (C06) *)
EXTENDS SearchSnr, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* longest period: the smaller of the requested one and n / fpmin
Request(e) ==
    LET cap == BLe(BMul(e.pmax[1], BInt(e.fpmin)), BMulI(e.pmax[2], e.n))
    IN  [n |-> e.n, b0 |-> e.b0, b1 |-> e.b1, an |-> e.pmin[1], ad |-> e.pmin[2],
         cn |-> IF cap THEN e.pmax[1] ELSE BInt(e.n), cd |-> IF cap THEN e.pmax[2] ELSE BInt(e.fpmin)]

(* Sample of a trial: i = index, x = period (scaled), and for C06: q[w] = round(S/N * 4096) for each width, and y[w] the
   same for the boxcar S/N (unit noise) of the transform of the downsampled data, obtained from the public functions; or
   e.data, the integer input data, from which the specification computes the exact value.  D: data of this stage. *)
StageData(e, st) == IF e.data = <<>> THEN <<>> ELSE TLCEval(Resampled(e.data, st))
SampleOK(e, r, st, n, D, m, b, s, smp) ==
    /\ PeriodOK(st, m, b, s, smp.x)
    /\ smp.q = <<>> \/ (IF e.data = <<>> THEN SnrSame(r, st, n, m, smp.q, smp.y)
                        ELSE HasTie(m, s) \/ SnrOK(r, st, n, D, m, b, s, e.widths, smp.q))

\* index of the first sample at or beyond trial `pos`, between lo and hi
RECURSIVE FirstAt(_, _, _, _)
FirstAt(smp, pos, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi) \div 2
         IN  IF smp[mid].i >= pos THEN FirstAt(smp, pos, lo, mid) ELSE FirstAt(smp, pos, mid + 1, hi)

(* Walk along the grid: the set of positions reached after one transform of b bins.  A position is
   [ri, used: place in the run-length coded foldbins; pos: trials so far; si: next sample]. *)
Positions(e, r, st, n, D, b, p) ==
    LET m == n \div b IN
    UNION {
        LET ri == IF c > 0 /\ p.ri <= Len(e.runs) /\ p.used = e.runs[p.ri][2] THEN p.ri + 1 ELSE p.ri
            us == IF ri # p.ri THEN 0 ELSE p.used
            fits == c = 0 \/ (ri <= Len(e.runs) /\ e.runs[ri][1] = b /\ us + c <= e.runs[ri][2])
            si == FirstAt(e.smp, p.pos + c, p.si, Len(e.smp) + 1)
            good == \A i \in p.si..(si - 1) : SampleOK(e, r, st, n, D, m, b, e.smp[i].i - p.pos, e.smp[i])
        IN  IF fits /\ good THEN {[ri |-> ri, used |-> us + c, pos |-> p.pos + c, si |-> si]} ELSE {}
        : c \in (IF b > n THEN {0} ELSE Kept(st, m, b)) }

\* one stage: all numbers of bins in turn
StageWalk(e, r, st, n, ps) ==
    LET D == StageData(e, st)
    IN  FoldLeft(LAMBDA acc, b : TLCEval(UNION {Positions(e, r, st, n, D, b, p) : p \in acc}), ps,
                 [i \in 1..(r.b1 - r.b0 + 1) |-> r.b0 + i - 1])

RECURSIVE Walk(_, _, _, _)
Walk(e, r, st, ps) ==
    LET after == TLCEval(UNION {StageWalk(e, r, st, n, ps) : n \in Sizes(r, st)})
        st1 == TLCEval(NextStage(r, st))
    IN  IF after = {} THEN FALSE
        ELSE IF StageRuns(r, st1) THEN Walk(e, r, st1, after)
        ELSE \E p \in after : p.pos = e.total /\ p.si = Len(e.smp) + 1

Grid(e) ==
    LET r == TLCEval(Request(e))
    IN  Walk(e, r, TLCEval(FirstStage(r)), {[ri |-> 1, used |-> 0, pos |-> 0, si |-> 1]})

Valid(e) ==
    LET r == Request(e) IN
    /\ e.pminpos /\ e.b0 > 1 /\ e.b1 >= e.b0
    /\ BLt(BMul(r.an, r.cd), BMul(r.cn, r.ad))                          \* shortest < longest (capped)
    /\ BLe(BMulI(r.ad, e.b0), r.an)                                     \* bins not shorter than samples
    /\ \A i \in 1..Len(e.widths) : e.widths[i] > 0 /\ e.widths[i] < e.b0
\* not exactly equal, but equal up to rounding
HangsOnRounding(e) ==
    LET r == Request(e)
        ties(x, y) == BCmp(x, y) # 0 /\ BNear(x, y, 48)
    IN  ties(BMul(r.an, r.cd), BMul(r.cn, r.ad)) \/ ties(BMulI(r.ad, e.b0), r.an)
Search(e) ==
    IF HangsOnRounding(e) /\ e.out # "ok" THEN "ok"
    ELSE IF ~Valid(e) /\ ~HangsOnRounding(e) THEN (IF e.out = "ValueError" THEN "ok" ELSE "invalid request not refused with ValueError")
    ELSE IF e.out # "ok"
         THEN (IF Grid([e EXCEPT !.total = 0]) THEN "ok" ELSE "valid request refused")   \* nothing to search
    ELSE IF ~e.lens THEN "array lengths"
    ELSE IF SumF(LAMBDA i : e.runs[i][2], 1, Len(e.runs)) # e.total THEN "foldbins length"
    ELSE IF \E i \in 1..Len(e.runs) : e.runs[i][1] < e.b0 \/ e.runs[i][1] > e.b1 THEN "bins out of range"
    ELSE IF ~Grid(e) THEN "trial grid"
    ELSE IF e.dec # 0 THEN "periods decrease"
    ELSE IF e.freqdev > 10 THEN "freqs"
    ELSE "ok"

(* Requests that may hold values which are not numbers: every comparison with these is false.  The trial widths come
   last (an empty list is only used in requests that are invalid for another reason). *)
Requested(e) ==
    LET valid == /\ e.tpos /\ e.pminpos /\ e.order /\ e.fits /\ e.b0 > 1 /\ e.b1 >= e.b0
                 /\ e.widths # <<>> /\ \A i \in 1..Len(e.widths) : e.widths[i] > 0 /\ e.widths[i] < e.b0
    IN  IF valid THEN (IF e.out = "ok" /\ e.lens THEN "ok" ELSE "valid request refused")
        ELSE IF e.out = "ValueError" THEN "ok" ELSE "invalid request not refused with ValueError"

NoSnr(e) == [e EXCEPT !.data = <<>>, !.smp = [i \in 1..Len(e.smp) |-> [e.smp[i] EXCEPT !.q = <<>>]]]
Snr(e) ==
    IF e.out # "ok" THEN "valid request refused"
    ELSE IF ~Grid(NoSnr(e)) THEN "trial grid"
    ELSE IF ~Grid(e) THEN "S/N"
    ELSE "ok"

Verdict(e) ==
    CASE e.e = "snr" -> Snr(e)
      [] e.e = "search" -> Search(e)
      [] e.e = "request" -> Requested(e)
      [] OTHER -> e.e

Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
=============================================================================
