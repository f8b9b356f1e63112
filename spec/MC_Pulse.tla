----------------------------- MODULE MC_Pulse ------------------------------
(***************************************************************************)
(* A generator that carries a phase from sample to sample, against the     *)
(* closed form; and the conditions on the shape of a pulse, which single   *)
(* out the one shape on the grids where it is rational.                    *)
(***************************************************************************)
EXTENDS Pulse, TLC
CONSTANTS AMAX, BMAX, TURNS
VARIABLES a, b, j0, i, acc, seen
vars == <<a, b, j0, i, acc, seen>>
RECURSIVE Gcd(_, _)
Gcd(u, v) == IF v = 0 THEN u ELSE Gcd(v, u % v)
Init ==
    /\ a \in 1..AMAX /\ b \in 1..BMAX /\ Gcd(a, b) = 1 /\ j0 \in 0..(a - 1)
    /\ i = 0 /\ acc = (a - j0) % a /\ seen = [k \in 0..(a - 1) |-> 0]
Step ==
    /\ i < TURNS * a
    /\ seen' = [seen EXCEPT ![acc] = @ + 1]
    /\ acc' = (acc + b) % a /\ i' = i + 1 /\ UNCHANGED <<a, b, j0>>
Spec == Init /\ [][Step]_vars

Closed == i < TURNS * a => acc = Place(a, b, j0, i)
\* every place equally often in whole turns, and a pulse in each
Even == i % a = 0 => \A k \in 0..(a - 1) : seen[k] = i \div a
Periodic == Place(a, b, j0, i + a) = Place(a, b, j0, i)

(* ---- shapes: all tables over a small range of values that satisfy the conditions are the true one *)
One == 16384
\* <<a, half width as a fraction of a period, true E(d) in quarters>>
Known == { <<6, 1, 6, <<0, 4, 12, 16>>>>, <<4, 1, 4, <<0, 4, 8>>>>, <<6, 1, 2, <<0, 1, 3, 4>>>>, <<2, 1, 4, <<0, 8>>>>, <<4, 1, 2, <<0, 2, 4>>>> }
Tables(n) == [1..n -> 0..16]
Only == \A g \in Known :
    \A T \in Tables(Len(g[4])) :
        LET S == [d \in 1..Len(T) |-> T[d] * (One \div 4)] IN
        Shape(S, g[1], g[2], g[3], One, 10^8, 20) <=> (T = g[4] \/ (g[1] = 2 /\ T[1] = 0 /\ T[2] >= 4))
OnlyThese == i = 0 /\ a = 1 /\ b = 1 => Only
=============================================================================
