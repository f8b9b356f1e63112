--------------------------------- MODULE Meta ---------------------------------
(* Metadata of an observation (C26): what may be put in it, and what it then holds.
   Values are known by their kind. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Reserved == {"source_name", "skycoord", "dm", "mjd", "tobs", "fname"}
Json == {"none", "str", "neg", "zero", "pos", "nan", "inf", "int", "bool", "json"}          \* "json": list, tuple, dict of such values
Other == {"sky", "nojson"}
Kinds == Json \cup Other
\* what a reserved key may hold
Holds(key, kind) ==
    \/ kind = "none"
    \/ key \in {"source_name", "fname"} /\ kind = "str"
    \/ key = "skycoord" /\ kind = "sky"
    \/ key \in {"dm", "mjd"} /\ kind \in {"zero", "pos", "inf"}
    \/ key = "tobs" /\ kind \in {"pos", "inf"}
\* "yes", "no" or "may": an integer may be refused or made a float, an infinite number kept or refused
Accepts(key, kind) ==
    IF key \in Reserved
    THEN IF kind = "inf" /\ Holds(key, kind) THEN "may"
         ELSE IF Holds(key, kind) THEN "yes"
         ELSE IF kind = "int" /\ key \in {"dm", "mjd", "tobs"} THEN "may" ELSE "no"
    ELSE IF kind \in Json THEN "yes" ELSE "no"
\* items: set of [k |-> key, kind |-> kind]
AcceptsAll(items) ==
    IF \E x \in items : Accepts(x.k, x.kind) = "no" THEN "no"
    ELSE IF \E x \in items : Accepts(x.k, x.kind) = "may" THEN "may" ELSE "yes"
\* ---- maps from keys to values
Set(m, k, v) == (k :> v) @@ m
Completed(m, none) == [k \in DOMAIN m \cup Reserved |-> IF k \in DOMAIN m THEN m[k] ELSE none]
===============================================================================
