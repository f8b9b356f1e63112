------------------------------ MODULE MC_RunMed -----------------------------
(***************************************************************************)
(* A streaming running median: a ring buffer of w samples primed with the  *)
(* first sample, fed with the data and then with copies of the last one,   *)
(* the median being selected by quickselect (Lomuto partition, last        *)
(* element as pivot).  Checked against the definition for all small data.  *)
(***************************************************************************)
EXTENDS RunMed
CONSTANTS NMAX, VMAX
VARIABLES x, w, ring, wpos, fed, out, buf, lo, hi, pc
vars == <<x, w, ring, wpos, fed, out, buf, lo, hi, pc>>
H == w \div 2
Init ==
    /\ \E n \in 2..NMAX : x \in [1..n -> 0..VMAX] /\ w \in 1..n
    /\ ValidWindow(x, w)
    /\ ring = [k \in 1..w |-> 0] /\ wpos = 1 /\ fed = 0 /\ out = <<>>
    /\ buf = <<>> /\ lo = 1 /\ hi = 1 /\ pc = "feed"

\* the sequence of values fed: h + 1 times the first sample, the rest of the data, h times the last sample
Feed(k) == IF k <= H THEN x[1] ELSE IF k - H < Len(x) THEN x[k - H + 1] ELSE x[Len(x)]
Total == Len(x) + 2 * H
Push ==
    /\ pc = "feed" /\ fed < Total
    /\ ring' = [ring EXCEPT ![wpos] = Feed(fed)]
    /\ wpos' = IF wpos = w THEN 1 ELSE wpos + 1
    /\ fed' = fed + 1
    /\ IF fed' > 2 * H THEN pc' = "select" /\ buf' = ring' /\ lo' = 1 /\ hi' = w
       ELSE UNCHANGED <<pc, buf, lo, hi>>
    /\ UNCHANGED <<x, w, out>>

\* Lomuto partition of b[l..u] around its last element: <<permuted b, final place of the pivot>>
RECURSIVE Part(_, _, _, _, _, _)
Part(b, l, u, i, j, p) ==
    IF i = u THEN <<[b EXCEPT ![j] = b[u], ![u] = b[j]], j>>
    ELSE IF b[i] < p THEN Part([b EXCEPT ![i] = b[j], ![j] = b[i]], l, u, i + 1, j + 1, p)
    ELSE Part(b, l, u, i + 1, j, p)
Select ==
    /\ pc = "select"
    /\ IF lo = hi THEN /\ out' = Append(out, buf[lo]) /\ pc' = "feed" /\ UNCHANGED <<buf, lo, hi>>
       ELSE LET r == Part(buf, lo, hi, lo, lo, buf[hi]) IN
            /\ buf' = r[1]
            /\ IF r[2] = H + 1 THEN out' = Append(out, r[1][r[2]]) /\ pc' = "feed" /\ UNCHANGED <<lo, hi>>
               ELSE /\ IF r[2] < H + 1 THEN lo' = r[2] + 1 /\ UNCHANGED hi ELSE hi' = r[2] - 1 /\ UNCHANGED lo
                    /\ UNCHANGED <<out, pc>>
    /\ UNCHANGED <<x, w, ring, wpos, fed>>
Spec == Init /\ [][Push \/ Select]_vars /\ WF_vars(Push \/ Select)

Medians == \A i \in 1..Len(out) : IsMedian(x, w, i - 1, out[i]) /\ out[i] = Median(x, w, i - 1)
InBounds == 1 <= lo /\ lo <= hi /\ hi <= w /\ Len(out) <= Len(x)
Terminates == <>(Len(out) = Len(x))
\* the interpolation goes through the medians and stays between neighbours
Interpolation == fed = 0 => \A sf \in 2..4 :
    /\ \A g \in 0..(Len(x) - 1) : sf % 2 = 1 => Interp(x, sf, g * sf + (sf - 1) \div 2) = 2 * sf * x[g + 1]
    /\ \A i \in 0..(Len(x) * sf) : \E g \in 1..Len(x) : 2 * sf * x[g] <= Interp(x, sf, i)
    /\ \A i \in 0..(Len(x) * sf) : \E g \in 1..Len(x) : 2 * sf * x[g] >= Interp(x, sf, i)
=============================================================================
