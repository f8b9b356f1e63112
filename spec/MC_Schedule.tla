----------------------------- MODULE MC_Schedule ------------------------------
(* Chunked parallel search: files are handed out in chunks of C; W workers take files of the chunk in any order, go through the
   ranges, and deliver their list when done; a chunk is gathered in file order once complete; then everything is sorted by period.
   found[f][r]: periods found in file f and range r;
   file `bad` (if not 0) cannot be read.  TLC explores every interleaving. *)
EXTENDS Schedule
CONSTANTS FMAX, CMAX, WMAX, PMAX
VARIABLES nf, C, W, found, bad, pending, chunk, doing, done, peaks, pc
vars == <<nf, C, W, found, bad, pending, chunk, doing, done, peaks, pc>>
Ranges == 1..2
Lists == {<<>>} \union {<<p>> : p \in 1..PMAX}
Init ==
    /\ nf \in 1..FMAX /\ bad \in 0..nf /\ C \in 1..CMAX /\ W \in 1..WMAX
    /\ found \in [1..nf -> [Ranges -> Lists]]
    /\ pending = [i \in 1..nf |-> i] /\ chunk = <<>>
    /\ doing = [w \in 1..W |-> <<0, 0, <<>>>>]      \* file, range, list so far
    /\ done = [f \in {} |-> <<>>] /\ peaks = <<>> /\ pc = "next"
Peak(f, p) == [dm |-> f, per |-> p]
Chunk ==
    /\ pc = "next" /\ pending # <<>>
    /\ chunk' = SubSeq(pending, 1, Min2(C, Len(pending))) /\ pending' = SubSeq(pending, Len(chunk') + 1, Len(pending))
    /\ done' = [f \in {} |-> <<>>] /\ pc' = "map" /\ UNCHANGED <<nf, C, W, found, bad, doing, peaks>>
Take(w) ==
    /\ pc = "map" /\ doing[w][1] = 0
    /\ LET busy == {doing[v][1] : v \in 1..W}
           free == {f \in {chunk[i] : i \in 1..Len(chunk)} : f \notin DOMAIN done /\ f \notin busy}
       IN  /\ free # {}
           /\ LET f == CHOOSE f \in free : \A g \in free : f <= g
              IN  doing' = [doing EXCEPT ![w] = <<f, 1, <<>>>>]
    /\ UNCHANGED <<nf, C, W, found, bad, pending, chunk, done, peaks, pc>>
Search(w) ==
    /\ pc = "map" /\ doing[w][1] # 0
    /\ LET f == doing[w][1] r == doing[w][2] li == doing[w][3] IN
       IF r \in Ranges /\ f # bad
       THEN /\ doing' = [doing EXCEPT ![w] = <<f, r + 1, li \o [k \in 1..Len(found[f][r]) |-> Peak(f, found[f][r][k])]>>]
            /\ UNCHANGED done
       ELSE /\ done' = done @@ (f :> li) /\ doing' = [doing EXCEPT ![w] = <<0, 0, <<>>>>]
    /\ UNCHANGED <<nf, C, W, found, bad, pending, chunk, peaks, pc>>
Gather ==
    /\ pc = "map" /\ DOMAIN done = {chunk[i] : i \in 1..Len(chunk)}
    /\ (IF bad \in DOMAIN done THEN pc' = "failed" /\ UNCHANGED peaks
        ELSE peaks' = FoldLeft(LAMBDA a, f : a \o done[f], peaks, chunk) /\ pc' = "next")
    /\ UNCHANGED <<nf, C, W, found, bad, pending, chunk, doing, done>>
Finish ==
    /\ pc = "next" /\ pending = <<>> /\ peaks' = SortSeq(peaks, LAMBDA a, b : a.per < b.per) /\ pc' = "done"
    /\ UNCHANGED <<nf, C, W, found, bad, pending, chunk, doing, done>>
Next == Chunk \/ Gather \/ Finish \/ \E w \in 1..W : Take(w) \/ Search(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Tasks == [k \in 1..(2 * nf) |-> <<(k + 1) \div 2, 1 + ((k + 1) % 2)>>]
AllDue == Due(Tasks, [t \in (1..nf) \X Ranges |-> [k \in 1..Len(found[t[1]][t[2]]) |-> Peak(t[1], found[t[1]][t[2]][k])]])
Same(a, b) == a = b
Exact == pc = "done" => SamePeaks(AllDue, peaks, Same) /\ SortedBy(peaks, "per")
\* a file that cannot be read is never passed over in silence
Faults == (pc = "done" => bad = 0) /\ (pc = "failed" => bad # 0)
Terminates == <>(pc \in {"done", "failed"})
===============================================================================
