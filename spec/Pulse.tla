------------------------------- MODULE Pulse -------------------------------
(***************************************************************************)
(* Pulse trains.  The period is a/b samples (in lowest terms), the pulse   *)
(* is at phase j0/a of a period: sample i is k/a of a period from a pulse, *)
(* k = Place(i).  A von Mises pulse of full width at half maximum ducy     *)
(* periods is 2^-E(d) of its maximum at d/a of a period from its centre,   *)
(* E(d) = sin^2(pi d / a) / sin^2(pi ducy / 2).                            *)
(***************************************************************************)
EXTENDS Num

Place(a, b, j0, i) == ((((i % a) * b) % a) + (a - j0)) % a
Dist(a, k) == Min2(k, a - k)
Half(a) == a \div 2

\* T[d + 1] = E(d), d in 0..Half(a), in some unit (`one`); values are known to within `tol`
Decreasing(T, a, cap) == \A d \in 1..Half(a) : T[d + 1] > T[d] \/ (T[d] >= cap /\ T[d + 1] >= cap)
\* half of the maximum at ducy / 2, between the two nearest places: ducy / 2 = hn / hd of a period
HalfMax(T, a, hn, hd, one, tol) ==
    \A d \in 0..Half(a) :
        /\ (d * hd <= hn * a) => T[d + 1] <= one + tol
        /\ (d * hd >= hn * a) => T[d + 1] >= one - tol
\* cos(2 pi d / a) = 1 - 2 E(d) / E(a / 2) for even a; doubles like a cosine, in units 2^-14
Cosine(T, a, d) == ((T[Half(a) + 1] - 2 * T[d + 1]) * 16384) \div T[Half(a) + 1]
Doubling(T, a, tol) ==
    a % 2 = 0 =>
        \A d \in 0..Half(a) :
            LET c == Cosine(T, a, d)
                c2 == Cosine(T, a, Dist(a, ((2 * d) % a)))
            IN  Abs(c2 - ((c * c) \div 8192 - 16384)) <= tol
Shape(T, a, hn, hd, one, cap, tol) ==
    /\ Abs(T[1]) <= tol
    /\ Decreasing(T, a, cap)
    /\ HalfMax(T, a, hn, hd, one, tol)
    /\ (T[Half(a) + 1] < cap => Doubling(T, a, 20))
=============================================================================
