-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of any size, as little-endian sequences of base 2^15    *)
(* digits without trailing zero digits (TLC's own integers have 32 bits).  *)
(***************************************************************************)
EXTENDS Num, TLC
BASE == 32768
BZero == <<>>

RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE BTrim(SubSeq(a, 1, Len(a) - 1))

RECURSIVE BInt(_)
BInt(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BInt(n \div BASE)

Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, i, c, acc) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET s == Dig(a, i) + Dig(b, i) + c
         IN  AddR(a, b, i + 1, TLCEval(s \div BASE), TLCEval(Append(acc, s % BASE)))
BAdd(a, b) == AddR(a, b, 1, 0, <<>>)

\* a >= b
RECURSIVE SubR(_, _, _, _, _)
SubR(a, b, i, c, acc) ==
    IF i > Len(a) THEN BTrim(acc)
    ELSE LET s == a[i] - Dig(b, i) - c
         IN  SubR(a, b, i + 1, TLCEval(IF s < 0 THEN 1 ELSE 0), TLCEval(Append(acc, s % BASE)))
BSub(a, b) == SubR(a, b, 1, 0, <<>>)

RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpR(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpR(a, b, Len(a))
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0
BDist(a, b) == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)

\* 0 <= d < BASE
RECURSIVE MulSR(_, _, _, _, _)
MulSR(a, d, i, c, acc) ==
    IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET s == a[i] * d + c IN MulSR(a, d, i + 1, TLCEval(s \div BASE), TLCEval(Append(acc, s % BASE)))
BMulS(a, d) == IF d = 0 THEN <<>> ELSE MulSR(a, d, 1, 0, <<>>)

RECURSIVE MulR(_, _, _, _)
MulR(a, b, i, acc) ==
    IF i = 0 THEN acc
    ELSE MulR(a, b, i - 1, TLCEval(BAdd(IF acc = <<>> THEN acc ELSE <<0>> \o acc, BMulS(a, b[i]))))
BMul(a0, b0) == LET a == TLCEval(a0) b == TLCEval(b0) IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE IF Len(a) < Len(b) THEN MulR(b, a, Len(a), <<>>) ELSE MulR(a, b, Len(b), <<>>)
BMulI(a, n) == BMul(a, BInt(n))

RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN <<1>> ELSE BMul(a, BPow(a, k - 1))

\* times 2^k
B2(a, k) == IF a = <<>> THEN a ELSE [i \in 1..(k \div 15) |-> 0] \o BMulS(a, 2 ^ (k % 15))

\* floor(a / b), known to be at most hi (a native integer)
RECURSIVE BDivR(_, _, _, _)
BDivR(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == lo + (hi - lo + 1) \div 2
         IN  IF BLe(BMulI(b, mid), a) THEN BDivR(a, b, mid, hi) ELSE BDivR(a, b, lo, mid - 1)
BDiv(a, b, hi) == BDivR(a, b, 0, hi)

\* |a - b| <= b / 2^k
BNear(a, b, k) == BLe(B2(BDist(a, b), k), b)
=============================================================================
