------------------------------ MODULE MC_FFA -------------------------------
(***************************************************************************)
(* The in-place recursion as an explicit machine: two buffers of m rows    *)
(* ("temp" and "out") whose roles swap at every level, a call stack, and   *)
(* one step per call, leaf, merged row and return.  A row holds the        *)
(* sequence of <<pulse, drift>> that were added into it.  Refines FFA.     *)
(***************************************************************************)
EXTENDS FFA, TLC

CONSTANT MMAX
VARIABLES M, buf, stack, done

Garbage == <<>>
Input(i) == << <<i, 0>> >>

\* frame: rows [lo, lo + m) ; o = index (1 or 2) of the buffer to write ; pc ; s = next row to merge
Frame(lo, m, o) == [lo |-> lo, m |-> m, o |-> o, pc |-> "start", s |-> 0]

Rotate(row, k) == [n \in 1..Len(row) |-> <<row[n][1], row[n][2] + k>>]

Init ==
    /\ M \in 1..MMAX
    /\ buf = [b \in {1, 2} |-> [i \in 0..(M - 1) |-> Garbage]]
    /\ stack = << Frame(0, M, 2) >>
    /\ done = FALSE

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]

Leaf1 ==
    /\ Top.pc = "start" /\ Top.m = 1
    /\ buf' = [buf EXCEPT ![Top.o][Top.lo] = Input(Top.lo)]
    /\ stack' = Pop
Leaf2 ==
    /\ Top.pc = "start" /\ Top.m = 2
    /\ buf' = [buf EXCEPT ![Top.o][Top.lo] = Input(Top.lo) \o Input(Top.lo + 1),
                          ![Top.o][Top.lo + 1] = Input(Top.lo) \o Rotate(Input(Top.lo + 1), 1)]
    /\ stack' = Pop
CallHead ==
    /\ Top.pc = "start" /\ Top.m > 2
    /\ stack' = Append(SetTop([Top EXCEPT !.pc = "tail"]), Frame(Top.lo, HeadRows(Top.m), 3 - Top.o))
    /\ UNCHANGED buf
CallTail ==
    /\ Top.pc = "tail"
    /\ stack' = Append(SetTop([Top EXCEPT !.pc = "merge"]),
                       Frame(Top.lo + HeadRows(Top.m), TailRows(Top.m), 3 - Top.o))
    /\ UNCHANGED buf
MergeRow ==
    /\ Top.pc = "merge" /\ Top.s < Top.m
    /\ \E h \in HeadShares(Top.m, Top.s) :
         LET s == Top.s
             t == TailShare(Top.m, s)
             head == buf[3 - Top.o][Top.lo + h]
             tail == buf[3 - Top.o][Top.lo + HeadRows(Top.m) + t]
         IN  buf' = [buf EXCEPT ![Top.o][Top.lo + s] = head \o Rotate(tail, s - t)]
    /\ stack' = SetTop([Top EXCEPT !.s = Top.s + 1])
Return ==
    /\ Top.pc = "merge" /\ Top.s = Top.m
    /\ stack' = Pop /\ UNCHANGED buf

Next ==
    \/ /\ stack # <<>>
       /\ Leaf1 \/ Leaf2 \/ CallHead \/ CallTail \/ MergeRow \/ Return
       /\ UNCHANGED <<M, done>>
    \/ /\ stack = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<M, buf, stack>>

Spec == Init /\ [][Next]_<<M, buf, stack, done>> /\ WF_<<M, buf, stack, done>>(Next)

\* every pulse exactly once, in order, with an admissible drift
RowCorrect(row, s) ==
    /\ Len(row) = M
    /\ \A i \in 0..(M - 1) : row[i + 1][1] = i
    /\ RowOK([i \in 1..M |-> row[i][2]], 1000003, 0, M, s, 0)
OutputCorrect == (stack = <<>>) => \A s \in 0..(M - 1) : RowCorrect(buf[2][s], s)
Facts == (stack = <<>> /\ ~done) => FirstPulseStill(M) /\ LastPulseDriftsS(M) /\ Monotone(M) /\ NearLine(M) /\ TallAgrees(M)
Terminates == <>done
=============================================================================
