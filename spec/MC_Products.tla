----------------------------- MODULE MC_Products ------------------------------
(* One pipeline object run several times.  Each input yields some peaks, clusters and candidates; stages whose input is empty leave
   their results alone (as the code does), so the results of a previous run must be forgotten when a run starts.  Disk contents
   must be those of a fresh object.  In each run one name may be unusable (`block`): then the run ends with an error exactly if it needs
   that name, and the next run of the same object is not affected.  RESET = FALSE shows that the property would fail otherwise (checked by an assumption below). *)
EXTENDS Products
CONSTANTS RUNS, PMAX, RESET
VARIABLES in, peaks, clusters, cands, disk, run, pc, outcome
vars == <<in, peaks, clusters, cands, disk, run, pc, outcome>>
\* an input: number of peaks found and of candidates that pass (at most the number of clusters)
Blocks == {File("none", -1), File("peaks", -1), File("cands", -1), File("json", 1)}
Inputs == {x \in [p : 0..PMAX, c : 0..PMAX, block : Blocks] : x.c <= x.p}
Init ==
    /\ in \in [1..RUNS -> Inputs] /\ peaks = <<0, 0>> /\ clusters = <<0, 0>> /\ cands = <<>> /\ run = 1 /\ pc = "prepare"
    /\ disk = [r \in 1..RUNS |-> {}] /\ outcome = [r \in 1..RUNS |-> ""]
Prepare == pc = "prepare" /\ run <= RUNS /\ pc' = "search" /\
    (IF RESET THEN peaks' = <<0, 0>> /\ clusters' = <<0, 0>> /\ cands' = <<>> ELSE UNCHANGED <<peaks, clusters, cands>>)
    /\ UNCHANGED <<in, disk, run, outcome>>
\* results carry the run they come from: <<count, run>>
Search == pc = "search" /\ pc' = "cluster" /\ peaks' = <<in[run].p, run>> /\ UNCHANGED <<in, clusters, cands, disk, run, outcome>>
ClusterS == pc = "cluster" /\ pc' = "build" /\ clusters' = (IF peaks[1] = 0 THEN clusters ELSE <<peaks[1], run>>) /\ UNCHANGED <<in, peaks, cands, disk, run, outcome>>
Build == pc = "build" /\ pc' = "save" /\
    cands' = (IF clusters[1] = 0 \/ in[run].c = 0 THEN cands ELSE cands \o [k \in 1..in[run].c |-> run]) /\ UNCHANGED <<in, peaks, clusters, disk, run, outcome>>
Due == IF peaks[1] = 0 THEN {} ELSE
               {<<File("peaks", -1), peaks[2]>>} \union (IF clusters[1] = 0 THEN {} ELSE {<<File("clusters", -1), clusters[2]>>})
               \union (IF cands = <<>> THEN {} ELSE {<<File("cands", -1), run>>}) \union {<<File("json", k - 1), cands[k]>> : k \in 1..Len(cands)}
Save == pc = "save" /\ pc' = "prepare" /\ run' = run + 1 /\
    LET due == Due
        lost == Lost({f[1] : f \in due}, {in[run].block})
    IN  /\ outcome' = [outcome EXCEPT ![run] = IF lost THEN "raised" ELSE "ok"]
        /\ \E part \in (IF lost THEN SUBSET {f \in due : f[1] # in[run].block} ELSE {due}) : disk' = [disk EXCEPT ![run] = part]
    /\ UNCHANGED <<in, peaks, clusters, cands>>
Next == Prepare \/ Search \/ ClusterS \/ Build \/ Save
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fresh == \A r \in 1..(run - 1) :
    /\ (outcome[r] = "ok") => {f[1] : f \in disk[r]} = ExpectedFiles(in[r].p, in[r].c, FALSE)
    /\ (outcome[r] = "raised") = Lost(ExpectedFiles(in[r].p, in[r].c, FALSE), {in[r].block})
    /\ {f[1] : f \in disk[r]} \subseteq ExpectedFiles(in[r].p, in[r].c, FALSE)
    /\ \A f \in disk[r] : f[2] = r
Terminates == <>(run = RUNS + 1)
===============================================================================
