------------------------------ MODULE MC_Config -------------------------------
(* The configurations tried: every mutation of one key, and combinations of DEPTH mutations of unrelated keys (generated by TLC). *)
EXTENDS Config, Json
CONSTANTS DEPTH, GEN
VARIABLES hist
vars == <<hist>>
\* two keys may be mutated together when neither lies below the other
Parent(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a) + 1) = a \o "."
Unrelated(a, b) == a # b /\ ~Parent(a, b) /\ ~Parent(b, a)
Muts == {hist[i] : i \in 1..Len(hist)}
Init == hist = <<>>
Mutate ==
    /\ Len(hist) < DEPTH
    /\ \E k \in Keys : \E t \in Tokens :
        /\ \A i \in 1..Len(hist) : Unrelated(k.key, hist[i].k)
        /\ hist' = Append(hist, [k |-> k.key, t |-> t])
Next == Mutate
Spec == Init /\ [][Next]_vars
Emit == (GEN /\ Len(hist) = DEPTH) => PrintT(<<"HIST", ToJson(hist)>>)
\* sanity of the table: unmutated is accepted; one bad value spoils any configuration; each key can be right and wrong
Sane ==
    /\ Accepted({}) = "yes"
    /\ Len(hist) > 0 /\ Allowed(KeyOf(hist[1].k), hist[1].t) = "no" => Accepted(Muts) = "no"
    /\ \A i \in 1..Len(hist) : LET k == KeyOf(hist[i].k) IN
          /\ \E t \in Tokens : Allowed(k, t) = "no"
          /\ k.type \notin {"section", "list", "entry"} => \E t \in Tokens : Allowed(k, t) = "yes"
          /\ (Allowed(k, "null") = "yes") = k.blank
          /\ (Allowed(k, "missing") = "yes") = k.opt
===============================================================================
