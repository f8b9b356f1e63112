------------------------------ MODULE MC_Search -----------------------------
(***************************************************************************)
(* Two passes over the same grid (one to size the output arrays, one to    *)
(* fill them), for all small requests.  Checked: the trial count formula   *)
(* is the number of FFA trials below the limit, the grid is ordered and    *)
(* inside the requested range, and no trial that belongs to it is missing. *)
(***************************************************************************)
EXTENDS Search, TLC, FiniteSets
CONSTANTS NMAX, BMAX, DEN
VARIABLES r, k, b, len, trials, pass

vars == <<r, k, b, len, trials, pass>>
Init ==
    /\ \E n \in 4..NMAX, b0 \in 2..BMAX, b1 \in 2..BMAX, a \in 2..(BMAX * DEN), c \in 2..(NMAX * DEN) :
         /\ b0 <= b1 /\ a >= b0 * DEN /\ c > a /\ c <= n * DEN
         /\ r = [n |-> n, b0 |-> b0, b1 |-> b1, a |-> a, c |-> c,
                 an |-> BInt(a), ad |-> BInt(DEN), cn |-> BInt(c), cd |-> BInt(DEN)]
    /\ k = 0 /\ b = r.b0 /\ len = 0 /\ trials = <<>> /\ pass = "count"

RECURSIVE St(_)
St(i) == IF i = 0 THEN FirstStage(r) ELSE NextStage(r, St(i - 1))
\* native arithmetic
FN == r.a * (r.b1 + 1) ^ k
FD == DEN * r.b0 ^ (k + 1)
Rows == ((r.n * FD) \div FN) \div b
\* trial period s of this transform, as a pair <<num, den>>
P(s) == <<FN * b * b * (Rows - 1), FD * (b * (Rows - 1) - s)>>
LessQ(x, y) == x[1] * y[2] < y[1] * x[2]
LeQ(x, y) == x[1] * y[2] <= y[1] * x[2]
PMax == <<r.c, DEN>>
Below(s) == LessQ(P(s), PMax) /\ LessQ(P(s), <<FN * (b + 1), FD>>)
Belongs == IF Rows <= 1 THEN {} ELSE {s \in 0..(Rows - 1) : Below(s)}
Keep == LET st == St(k) IN CHOOSE x \in Kept(st, ((r.n * FD) \div FN) \div b, b) :
            \A y \in Kept(st, ((r.n * FD) \div FN) \div b, b) : x <= y
Active == LET st == St(k) IN BLt(BMulI(st.pd, r.b0), st.pn)

Transform ==
    /\ pass \in {"count", "fill"} /\ Active
    /\ IF pass = "count" THEN len' = len + Keep /\ UNCHANGED trials
       ELSE trials' = trials \o [s \in 1..Keep |-> P(s - 1) \o <<b>>] /\ UNCHANGED len
    /\ IF b < r.b1 THEN b' = b + 1 /\ UNCHANGED k ELSE b' = r.b0 /\ k' = k + 1
    /\ UNCHANGED <<r, pass>>
NextPass ==
    /\ pass \in {"count", "fill"} /\ ~Active
    /\ pass' = IF pass = "count" THEN "fill" ELSE "done"
    /\ k' = 0 /\ b' = r.b0 /\ UNCHANGED <<r, len, trials>>
Spec == Init /\ [][Transform \/ NextPass]_vars /\ WF_vars(Transform \/ NextPass)

CountRight == (pass # "done" /\ Active) => LET st == St(k) IN
                  /\ Cardinality(Belongs) \in Kept(st, Rows, b)
                  /\ Belongs = 0..(Cardinality(Belongs) - 1)
                  \* more than one possible value only at an exact tie, at this size
                  /\ Cardinality(Kept(st, Rows, b)) > 1 => \E s \in 0..Rows : b * (Rows - 1) > s /\
                        (\/ P(s) = PMax \/ ~(LessQ(P(s), PMax) \/ LessQ(PMax, P(s)))
                         \/ ~(LessQ(P(s), <<FN * (b + 1), FD>>) \/ LessQ(<<FN * (b + 1), FD>>, P(s))))
Sized == /\ Len(trials) <= len \/ pass = "count"
         /\ pass = "done" => Len(trials) = len
InRange == pass = "done" => \A i \in 1..Len(trials) :
               /\ trials[i][3] \in r.b0..r.b1
               /\ LeQ(<<r.a, DEN>>, trials[i]) /\ LessQ(trials[i], PMax)
               /\ i > 1 => LeQ(trials[i - 1], trials[i])
Terminates == <>(pass = "done")
=============================================================================
