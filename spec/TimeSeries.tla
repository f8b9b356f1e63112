----------------------------- MODULE TimeSeries -----------------------------
(* TimeSeries objects (C09): value semantics of the operations, and the heap machine that implements them.
   An object is a record [buf, t, n, meta]: the buffer holding its samples, its sampling time (an integer number of
   units), its number of samples, its metadata.  The operations:
     normalise, deredden            same sampling, new values
     downsample by num/den          t * num/den, floor(n * den/num) samples
     copy                           same values
   each either in place or returning a new, independent object. *)
EXTENDS Integers, Sequences, FiniteSets

DownValid(n, num, den) == num > den /\ n * den >= num
DownN(n, num, den) == (n * den) \div num
DownT(t, num, den) == (t * num) \div den           \* t is chosen divisible

\* What the value of an object becomes: [c |-> content term, t, n]
Apply(op, o) ==
    IF op.k = "downsample"
    THEN [c |-> Append(o.c, op.k), t |-> DownT(o.t, op.num, op.den), n |-> DownN(o.n, op.num, op.den), m |-> o.m]
    ELSE IF op.k = "copy" THEN o
    ELSE [o EXCEPT !.c = Append(@, op.k)]

=============================================================================
