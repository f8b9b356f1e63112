------------------------------- MODULE MC_Layout -------------------------------
(* The machine of a native function: refuse or copy what is not contiguous, then run a kernel over consecutive cells of memory, writing to
   memory of its own.  Every small view of every small memory.  Poison marks the cells which nothing may read. *)
EXTENDS Layout
CONSTANTS MEM, DIM, SMAX, ARGMAX
Poison == -99
VARIABLES v, mem, f, arg, mode, pc, src, pos, acc, out, reads
vars == <<v, mem, f, arg, mode, pc, src, pos, acc, out, reads>>
Views == {w \in UNION {[off : 0..(MEM - 1), shape : [1..d -> 1..SMAX], strides : [1..d -> (-SMAX)..(SMAX + 1)]] : d \in 1..DIM} :
            InBounds([k \in 1..MEM |-> 0], w)}
\* cell k holds 10 ^ (k-1): different everywhere, sums tell what was added
Cell(k) == k * k + 1
Used(w) == {Addresses(w)[k] : k \in 1..Size(w.shape)}
Memory(w) == [k \in 1..MEM |-> IF k - 1 \in Used(w) THEN Cell(k) ELSE Poison]
Outsize == IF f = "prefix" THEN arg ELSE Size(v.shape)
Init ==
    /\ v \in Views /\ mem = Memory(v) /\ f \in {"roll", "prefix"} /\ arg \in 1..ARGMAX /\ mode \in {"refuse", "copy"}
    /\ pc = "check" /\ src = -1 /\ pos = 0 /\ acc = 0 /\ out = <<>> /\ reads = {}
N == Size(v.shape)
\* memory of its own: after the caller's
Check ==
    /\ pc = "check"
    /\ IF Contiguous(v) THEN src' = v.off /\ pc' = "run" /\ mem' = mem
       ELSE IF mode = "copy" THEN src' = MEM /\ pc' = "run" /\ mem' = mem \o Values(mem, v)
       ELSE src' = -1 /\ pc' = "refused" /\ mem' = mem
    /\ UNCHANGED <<v, f, arg, mode, pos, acc, out, reads>>
Read(a) == mem[src + a + 1]
Roller ==                                                          \* two consecutive copies
    LET p == arg % N  q == N - p
        from == IF pos < q THEN p + pos ELSE pos - q IN
    /\ out' = Append(out, Read(from)) /\ reads' = reads \cup {src + from} /\ acc' = acc
Summer ==                                                          \* one pass over the data, then over the sums already written
    /\ IF pos < N THEN acc' = acc + Read(pos) /\ reads' = reads \cup {src + pos} /\ out' = Append(out, acc')
       ELSE acc' = acc /\ reads' = reads /\ out' = Append(out, (pos \div N) * out[N] + (IF pos % N = N - 1 THEN out[N] ELSE out[(pos % N) + 1]))
Run ==
    /\ pc = "run"
    /\ IF pos = Outsize THEN pc' = "done" /\ UNCHANGED <<pos, acc, out, reads>>
       ELSE /\ pos' = pos + 1 /\ pc' = pc /\ (IF f = "roll" THEN Roller ELSE Summer)
    /\ UNCHANGED <<v, mem, f, arg, mode, src>>
Next == Check \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- what is claimed
Orig == Memory(v)
Expected == LET x == Values(Orig, v) IN IF f = "roll" THEN Roll(x, arg) ELSE Prefix(x, arg)
Right == pc = "done" => out = Expected
NoPoison == \A a \in reads : a \in 0..(Len(mem) - 1) /\ mem[a + 1] # Poison
Unchanged == SubSeq(mem, 1, MEM) = Orig
RefusedOnly == pc = "refused" => ~Contiguous(v)
\* contiguous means exactly: the addresses follow one another
Meaning == LET a == Addresses(v) IN Contiguous(v) <=> \A k \in 1..Len(a) : a[k] = v.off + k - 1
Terminates == <>(pc \in {"done", "refused"})
===============================================================================
