------------------------------- MODULE MC_Presto ------------------------------
(* The parser against the layout, on every file of up to NMAX lines. *)
EXTENDS Integers, Sequences, TLC
CONSTANT NMAX
VARIABLES ls, s
vars == <<ls, s>>
HeadOKD(i, v) == i = 2 => v \in {"0", "1"}
TruthD(v) == v = "1"
IsPairD(v) == v = "p"
BlockLenD(v) == CASE v = "R" -> 2 [] v = "X" -> 1 [] OTHER -> 0
BlockOKD(b, i, v) == ~(b = "R" /\ i = 1) \/ v \in {"0", "1"}
P == INSTANCE Presto WITH NHead <- 2, TelAt <- 1, BreaksAt <- 2, HeadOK <- HeadOKD, Truth <- TruthD, IsPair <- IsPairD, BlockLen <- BlockLenD,
                          BlockOK <- BlockOKD, Fake <- "f"
Lines == {[std |-> TRUE, v |-> v] : v \in {"f", "0", "1", "p", "R", "X"}} \cup {[std |-> FALSE, v |-> "p"]}
Init == ls \in UNION {[1..n -> Lines] : n \in 0..NMAX} /\ s = P!Begin
Next == ~P!Halted(s) /\ s' = P!Step(ls, s) /\ UNCHANGED ls
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Accepted == s.ph = "done"
\* accepted exactly when the lines have the layout, with the pairs of that layout
Exact == P!Halted(s) => (Accepted <=> \E k \in 0..NMAX : \E b \in 1..2 : P!Layout(ls, k, b))
PairsRight == Accepted => \E b \in 1..2 : P!Layout(ls, Len(s.pairs), b) /\ s.pairs = [i \in 1..Len(s.pairs) |-> ls[2 + i].v]
One == Accepted => \A k1, k2 \in 0..NMAX : \A b1, b2 \in 1..2 : P!Layout(ls, k1, b1) /\ P!Layout(ls, k2, b2) => k1 = k2 /\ b1 = b2
\* what follows the block does not matter, and a refusal for lack of lines is one that more lines could mend
Why == s.ph = "refused" =>
    CASE s.why = "short" -> s.i = Len(ls) + 1
      [] s.why = "artificial" -> ls[1] = [std |-> TRUE, v |-> "f"]
      [] s.why = "layout" -> ~ls[s.i].std
      [] OTHER -> ls[s.i].std
Terminates == <>P!Halted(s)
===============================================================================
