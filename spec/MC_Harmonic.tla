----------------------------- MODULE MC_Harmonic -----------------------------
(* The search for the closest fraction as the continued fraction algorithm (the machine), against the definition;
   and algebraic facts of the harmonic test, for all small pairs of frequencies and denominator limits. *)
EXTENDS Harmonic
CONSTANTS NMAX, DMAX
VARIABLES a, b, d, n0, d0, p0, q0, p1, q1, res, pc
vars == <<a, b, d, n0, d0, p0, q0, p1, q1, res, pc>>
Init ==
    /\ a \in 1..NMAX /\ b \in 1..NMAX /\ b >= a /\ d \in 1..DMAX
    /\ n0 = b /\ d0 = a /\ p0 = 0 /\ q0 = 1 /\ p1 = 1 /\ q1 = 0 /\ res = <<0, 0>> /\ pc = "run"
\* a fraction whose denominator is within the limit is its own closest fraction
Short == /\ pc = "run" /\ q1 = 0 /\ Reduced(b, a)[2] <= d
         /\ res' = Reduced(b, a) /\ pc' = "done" /\ UNCHANGED <<a, b, d, n0, d0, p0, q0, p1, q1>>
Step ==
    /\ pc = "run" /\ Reduced(b, a)[2] > d
    /\ LET k == n0 \div d0 q2 == q0 + k * q1
       IN  /\ q2 <= d
           /\ p0' = p1 /\ q0' = q1 /\ p1' = p0 + k * p1 /\ q1' = q2 /\ n0' = d0 /\ d0' = n0 - k * d0
    /\ UNCHANGED <<a, b, d, res, pc>>
Stop ==
    /\ pc = "run" /\ Reduced(b, a)[2] > d
    /\ q0 + (n0 \div d0) * q1 > d
    /\ LET k == (d - q0) \div q1
           f == <<p0 + k * p1, q0 + k * q1>> g == <<p1, q1>>
       IN  res' = IF Closer(a, b, f, g) THEN f ELSE g
    /\ pc' = "done" /\ UNCHANGED <<a, b, d, n0, d0, p0, q0, p1, q1>>
Next == Short \/ Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
ResClosest == Done => res \in Closest(a, b, d)
Unique == Done => (\A f \in Closest(a, b, d) : IsClosest(a, b, d, f)) /\ Cardinality(Closest(a, b, d)) \in 1..2
Proper == Done => \A f \in Closest(a, b, d) : f[2] \in 1..d /\ Gcd(f[1], f[2]) = 1 /\ f[1] >= f[2]
\* equal frequencies are the fundamental itself, exact harmonics are found
Exact == Done => /\ (a = b => res = <<1, 1>>)
                 /\ (Reduced(b, a)[2] <= d => res = Reduced(b, a) /\ Dev(a, b, res) = 0)
Terminates == <>Done
===============================================================================
