-------------------------------- MODULE FFA --------------------------------
(***************************************************************************)
(* The Fast Folding Algorithm transform of m folded rows of p bins.        *)
(*                                                                         *)
(* Row s of the transform adds up all m input rows, input row i being      *)
(* rotated towards phase zero by Drift(m, s, i) bins: the classical        *)
(* recursion transforms the first m \div 2 rows and the rest separately,   *)
(* and gives each half its share of the s bins rounded to the nearest bin. *)
(***************************************************************************)
EXTENDS Num, TLC

HeadRows(m) == m \div 2
TailRows(m) == m - m \div 2

\* floor((k - 1) s / (m - 1) + 1/2): share of drift s for a half of k rows out of m
Share(k, m, s) == (2 * (k - 1) * s + (m - 1)) \div (2 * (m - 1))

\* the head's share is an exact half-integer only if m = 1 mod 4 and s = (m - 1) / 2, in which case the inexact float
\* arithmetic of an implementation may round either way; the tail's half-integers (m and s odd) are exact and round up
HeadTie(m, s) == m % 4 = 1 /\ 2 * s = m - 1
HeadShares(m, s) ==
    LET h == Share(HeadRows(m), m, s) IN IF HeadTie(m, s) THEN {h, h - 1} ELSE {h}
TailShare(m, s) == Share(TailRows(m), m, s)

\* the set of admissible drifts of pulse i (0-based) in row s: a singleton except at ties
RECURSIVE DriftSet(_, _, _)
DriftSet(m, s, i) ==
    IF m = 1 THEN {0}
    ELSE IF i < HeadRows(m)
         THEN UNION {DriftSet(HeadRows(m), h, i) : h \in HeadShares(m, s)}
         ELSE {s - TailShare(m, s) + d : d \in DriftSet(TailRows(m), TailShare(m, s), i - HeadRows(m))}

\* Tall transforms.  With M = m - 1 and 2 (k - 1) = M - c (c = 0, 1 or 2), the share is floor(((s + 1) M - c s) / 2M), written
\* here so that nothing exceeds 2 m; single precision arithmetic may round shares within 1/100 of a half-integer either way
TallParts(k, m, s) ==
    LET M == m - 1
        c == M - 2 * (k - 1)
        r == IF s % 2 = 1 THEN 0 - c * s ELSE M - c * s
    IN  <<(IF s % 2 = 1 THEN (s + 1) \div 2 ELSE s \div 2) + (r \div (2 * M)), r % (2 * M)>>
TallShare(k, m, s) == TallParts(k, m, s)[1]
TallShares(k, m, s) ==
    LET q == TallParts(k, m, s) M == m - 1
    IN  {h \in {q[1]} \cup (IF q[2] <= M \div 50 THEN {q[1] - 1} ELSE {})
                     \cup (IF q[2] >= 2 * M - M \div 50 THEN {q[1] + 1} ELSE {}) : 0 <= h /\ h < k}
RECURSIVE TallDrifts(_, _, _)
TallDrifts(m, s, i) ==
    IF m <= 4096 THEN DriftSet(m, s, i)
    ELSE IF i < HeadRows(m)
         THEN UNION {TallDrifts(HeadRows(m), h, i) : h \in TallShares(HeadRows(m), m, s)}
         ELSE UNION {{s - t + d : d \in TallDrifts(TailRows(m), t, i - HeadRows(m))} : t \in TallShares(TailRows(m), m, s)}

\* one canonical drift (ties up)
RECURSIVE Drift(_, _, _)
Drift(m, s, i) ==
    IF m = 1 THEN 0
    ELSE IF i < HeadRows(m)
         THEN Drift(HeadRows(m), Share(HeadRows(m), m, s), i)
         ELSE s - TailShare(m, s) + Drift(TailRows(m), TailShare(m, s), i - HeadRows(m))

\* does a tie occur anywhere in the recursion of row s ?
RECURSIVE HasTie(_, _)
HasTie(m, s) ==
    IF m = 1 THEN FALSE
    ELSE HeadTie(m, s) \/ HasTie(HeadRows(m), Share(HeadRows(m), m, s)) \/ HasTie(TailRows(m), TailShare(m, s))

\* d: sequence of m observed drifts modulo p; are d[lo+1..lo+m] those of row s of an m-row transform, shifted by off ?
RECURSIVE RowOK(_, _, _, _, _, _)
RowOK(d, p, lo, m, s, off) ==
    IF m = 1 THEN s = 0 /\ (d[lo + 1] - off) % p = 0
    ELSE \E h \in HeadShares(m, s) :
            /\ RowOK(d, p, lo, HeadRows(m), h, off)
            /\ RowOK(d, p, lo + HeadRows(m), TailRows(m), TailShare(m, s), off + s - TailShare(m, s))

\* value of output bin j (0-based) of row s for input rows x (1-based sequences)
OutBin(x, m, p, s, j) == SumF(LAMBDA i : x[i + 1][((j + Drift(m, s, i)) % p) + 1], 0, m - 1)

\* the whole row
OutRow(x, m, p, s) ==
    LET D == TLCEval([i \in 0..(m - 1) |-> Drift(m, s, i)])
    IN  [j \in 1..p |-> SumF(LAMBDA i : x[i + 1][((j - 1 + D[i]) % p) + 1], 0, m - 1)]

-----------------------------------------------------------------------------
(* Facts about the definition, model checked over all m up to a bound (MC_FFA) *)
FirstPulseStill(m) == \A s \in 0..(m - 1) : Drift(m, s, 0) = 0
LastPulseDriftsS(m) == \A s \in 0..(m - 1) : Drift(m, s, m - 1) = s
TallAgrees(m) == m = 1 \/ \A s \in 0..(m - 1) : /\ TallShare(HeadRows(m), m, s) = Share(HeadRows(m), m, s)
                                               /\ TallShare(TailRows(m), m, s) = Share(TailRows(m), m, s)
Monotone(m) == \A s \in 0..(m - 1) : \A i \in 1..(m - 1) : Drift(m, s, i - 1) <= Drift(m, s, i)
\* each level of the recursion rounds by at most half a bin for the head, and at most one for the offset of the tail
RECURSIVE Levels(_)
Levels(m) == IF m = 1 THEN 0 ELSE 1 + Levels(TailRows(m))
NearLine(m) == \A s \in 0..(m - 1) : \A i \in 0..(m - 1) :
                  2 * Abs((m - 1) * Drift(m, s, i) - s * i) <= (m - 1) * Max2(1, Levels(m))
=============================================================================
