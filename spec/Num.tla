-------------------------------- MODULE Num --------------------------------
(* Integer helpers shared by all specification modules. *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)                 \* b > 0

\* sum of F(i), i in lo..hi, by halving: recursion depth log(hi - lo)
RECURSIVE SumF(_, _, _)
SumF(F(_), lo, hi) ==
    IF lo > hi THEN 0
    ELSE IF lo = hi THEN F(lo)
    ELSE LET mid == (lo + hi) \div 2 IN SumF(F, lo, mid) + SumF(F, mid + 1, hi)

SumSeq(s) == SumF(LAMBDA i : s[i], 1, Len(s))

RECURSIVE MaxF(_, _, _)
MaxF(F(_), lo, hi) ==
    IF lo = hi THEN F(lo)
    ELSE LET mid == (lo + hi) \div 2 IN Max2(MaxF(F, lo, mid), MaxF(F, mid + 1, hi))

RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
\* floor of the square root
ISqrt(n) == IF n <= 1 THEN n ELSE ISqrtFrom(n, n)

IsSortedDesc(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
IsSortedAsc(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

\* multiset of the elements of a sequence
Count(s, x) == SumF(LAMBDA i : IF s[i] = x THEN 1 ELSE 0, 1, Len(s))
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

=============================================================================
