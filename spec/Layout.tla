-------------------------------- MODULE Layout --------------------------------
(* Arrays as views of memory, and functions of arrays (C25).
   A view is [off, shape, strides] (in elements) of a sequence of cells; functions see its values in row-major order only. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Size(shape) == FoldLeft(LAMBDA a, b : a * b, 1, shape)
\* address (from 0) of the k-th value (k from 0) in row-major order
RECURSIVE Address(_, _, _)
Address(v, d, k) ==
    IF d = 0 THEN v.off
    ELSE Address(v, d - 1, k \div v.shape[d]) + (k % v.shape[d]) * v.strides[d]
Addresses(v) == [k \in 1..Size(v.shape) |-> Address(v, Len(v.shape), k - 1)]
Values(mem, v) == LET a == Addresses(v) IN [k \in 1..Len(a) |-> mem[a[k] + 1]]
InBounds(mem, v) == \A k \in 1..Size(v.shape) : Address(v, Len(v.shape), k - 1) \in 0..(Len(mem) - 1)
\* as NumPy defines it: axes of one element do not matter
Contiguous(v) ==
    \/ Size(v.shape) <= 1
    \/ \A d \in 1..Len(v.shape) : v.shape[d] = 1 \/ v.strides[d] = Size(SubSeq(v.shape, d + 1, Len(v.shape)))
\* ---- functions of the values
Roll(x, s) == [k \in 1..Len(x) |-> x[((k - 1 + s) % Len(x)) + 1]]
RollAdd(x, y, s) == LET r == Roll(y, s) IN [k \in 1..Len(x) |-> x[k] + r[k]]
Total(x) == FoldLeft(LAMBDA a, b : a + b, 0, x)
Prefix(x, n) == [k \in 1..n |-> (k \div Len(x)) * Total(x) + Total(SubSeq(x, 1, k % Len(x)))]
Clip(k, n) == IF k < 1 THEN 1 ELSE IF k > n THEN n ELSE k
Middle(s) == LET n == Len(s) IN CHOOSE v \in {s[i] : i \in 1..n} :
    /\ Cardinality({i \in 1..n : s[i] < v}) <= n \div 2
    /\ Cardinality({i \in 1..n : s[i] > v}) <= n \div 2
Medians(x, w) == [k \in 1..Len(x) |-> Middle([j \in 1..w |-> x[Clip(k + j - 1 - w \div 2, Len(x))]])]
Groups(x, f) == [k \in 1..(Len(x) \div f) |-> Total(SubSeq(x, (k - 1) * f + 1, k * f))]
===============================================================================
