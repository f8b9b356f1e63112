---------------------------- MODULE TraceProducts -----------------------------
(* Conformance of the data products on disk (C19) *)
EXTENDS Products, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Set(s) == {s[i] : i \in 1..Len(s)}
Run(e) ==
    LET files == TLCEval({File(e.files[i].k, e.files[i].n) : i \in 1..Len(e.files)})
        want == TLCEval(ExpectedFiles(Len(e.peaks), Len(e.cands), e.plot))
    IN  IF e.out # "ok" THEN "failed: " \o e.out
        ELSE IF Cardinality(files) # Len(e.files) THEN "several files of one name"
        ELSE IF files \ want # {} THEN "unexpected file in the output directory"
        ELSE IF want \ files # {} THEN "missing file"
        ELSE IF ~e.outside THEN "something changed outside the output directory"
        ELSE IF ~SameTable(e.peaks, e.csvpeaks) THEN "peaks.csv is not the pipeline's peaks"
        ELSE IF ~SameTable(e.clusters, e.csvclusters) THEN "clusters.csv is not the pipeline's clusters"
        ELSE IF Len(e.peaks) # SumF(LAMBDA i : e.npeaks[i], 1, Len(e.npeaks)) THEN "clusters do not hold all peaks"
        ELSE IF ~SameTable(e.cands, e.csvcands) THEN "candidates.csv is not the pipeline's candidates"
        ELSE IF Len(e.json) # Len(e.cands) THEN "unreadable candidate file"
        ELSE IF \E i \in 1..Len(e.json) : e.json[i] # e.objs[i] THEN "candidate file is not the pipeline's candidate"
        ELSE IF \E i \in 1..(Len(e.snr) - 1) : e.snr[i] < e.snr[i + 1] THEN "candidate files not in decreasing S/N order"
        ELSE IF \E t \in 1..2 : \E i \in 1..(Len(e.rowsnr[t]) - 1) : e.rowsnr[t][i] < e.rowsnr[t][i + 1]
             THEN "clusters.csv or candidates.csv not in decreasing S/N order"
        ELSE IF ~e.png THEN "bad plot file"
        ELSE IF e.fresh # e.again THEN "not the products of a fresh run"
        ELSE "ok"
\* the name of product <<e.k, e.n>> is taken by a directory: a run that needs the name says so, any other run is complete
Fault(e) ==
    LET want == ExpectedFiles(e.npeaks, e.ncands, e.plot)
        files == {File(e.files[i].k, e.files[i].n) : i \in 1..Len(e.files)}
    IN  IF ~e.outside THEN "something changed outside the output directory"
        ELSE IF Lost(want, {File(e.k, e.n)}) /\ ~e.raised THEN "a product could not be written, yet the run ended normally"
        ELSE IF ~Lost(want, {File(e.k, e.n)}) /\ e.raised THEN "failed on a name that is not that of a product"
        ELSE IF ~e.raised /\ files # want \union {File(e.k, e.n)} THEN "files missing or unexpected"
        ELSE "ok"
Verdict(e) == CASE e.e = "fault" -> Fault(e) [] e.e = "run" -> Run(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
