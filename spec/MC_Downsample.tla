---------------------------- MODULE MC_Downsample ---------------------------
(***************************************************************************)
(* A streaming integrator: walks through the input, giving to the current  *)
(* output as much of the current sample as fits.  Its outputs must be the  *)
(* declarative overlaps, it must stop after OutSize outputs, and never     *)
(* read past the input.                                                    *)
(***************************************************************************)
EXTENDS Downsample, TLC
CONSTANTS SMAX, DMAX
VARIABLES size, num, den, i, used, k, got, out

Init ==
    /\ size \in 2..SMAX /\ den \in 1..DMAX
    /\ num \in (den + 1)..(size * den)
    /\ i = 0 /\ used = 0          \* used: part of sample i already given out
    /\ k = 0 /\ got = <<>>        \* got: <<sample, weight>> pairs of output k
    /\ out = <<>>

Filled == LET F(n) == got[n][2] IN SumF(F, 1, Len(got))
Step ==
    /\ k < OutSize(size, num, den)
    /\ LET room == num - Filled
           give == Min2(room, den - used)
       IN  /\ IF give = room
              THEN /\ out' = Append(out, Append(got, <<i, give>>)) /\ got' = <<>> /\ k' = k + 1
              ELSE /\ got' = Append(got, <<i, give>>) /\ UNCHANGED <<out, k>>
           /\ IF used + give = den THEN i' = i + 1 /\ used' = 0 ELSE used' = used + give /\ UNCHANGED i
    /\ UNCHANGED <<size, num, den>>
Spec == Init /\ [][Step]_<<size, num, den, i, used, k, got, out>>

InBounds == k < OutSize(size, num, den) => i < size
Weights == \A o \in 1..Len(out) :
    /\ \A n \in 1..Len(out[o]) : out[o][n][2] = Overlap(num, den, out[o][n][1], o - 1)
    /\ out[o][1][1] = FirstIn(num, den, o - 1) /\ out[o][Len(out[o])][1] = LastIn(num, den, o - 1)
    /\ (LET F(n) == out[o][n][2] IN SumF(F, 1, Len(out[o]))) = num
\* nothing but a remainder smaller than one output is left over
Remainder == k = OutSize(size, num, den) => size * den - k * num < num
=============================================================================
