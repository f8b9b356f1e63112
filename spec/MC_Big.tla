-------------------------------- MODULE MC_Big ------------------------------
(* The Big operators agree with TLC's native integers wherever these reach. *)
EXTENDS Big, TLC
CONSTANTS S1, S2
VARIABLES x, y
\* numbers around digit boundaries and a spread of others
Grid == {k * S1 + d : k \in 0..12, d \in 0..2} \cup {k * S2 + d : k \in 0..7, d \in 0..1}
Init == x \in Grid /\ y \in Grid
Spec == Init /\ [][UNCHANGED <<x, y>>]_<<x, y>>
Val(a) == SumF(LAMBDA i : a[i] * (BASE ^ (i - 1)), 1, Len(a))
Canon(a) == (a = <<>> \/ a[Len(a)] # 0) /\ \A i \in 1..Len(a) : a[i] \in 0..(BASE - 1)
Right(a, v) == Canon(a) /\ Val(a) = v
X == BInt(x)
Y == BInt(y)
Correct ==
    /\ Right(X, x)
    /\ Right(BAdd(X, Y), x + y)
    /\ x >= y => Right(BSub(X, Y), x - y)
    /\ BCmp(X, Y) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
    /\ (y = 0 \/ x <= 1073741823 \div Max2(y, 1)) => Right(BMul(X, Y), x * y)
    /\ y > 0 => BDiv(X, Y, x) = x \div y
    /\ Right(BDist(X, Y), Abs(x - y))
\* algebra beyond 32 bits
Algebra ==
    LET a == BMul(X, B2(Y, 31)) IN
    /\ Canon(a)
    /\ a = B2(BMul(Y, X), 31)
    /\ BMul(BAdd(X, Y), BAdd(a, X)) = BAdd(BMul(X, BAdd(X, a)), BMul(Y, BAdd(a, X)))
    /\ BSub(BAdd(a, X), a) = X
    /\ BPow(X, 3) = BMul(X, BMul(X, X))
=============================================================================
