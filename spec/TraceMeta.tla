------------------------------- MODULE TraceMeta -------------------------------
(* Conformance of metadata (C26).  "build": one Metadata built from items.  "step": one operation of a history with the metadata of all
   live objects after it; values are known by identities (0: None), the machine predicts every one of them. *)
EXTENDS Meta, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Items(e) == {[k |-> e.items[i].k, kind |-> e.items[i].kind] : i \in 1..Len(e.items)}
Valid(h) == \A k \in Reserved : k \in DOMAIN h /\ Holds(k, h[k])
\* e.kinds: kind of each value it now holds; e.same: keys whose value is what was given; e.eq: equal to it; e.clean: the source was not changed
Build(e) ==
    LET want == IF e.src = "items" THEN AcceptsAll(Items(e)) ELSE "may" IN
    IF ~e.clean THEN "source of the metadata changed"
    ELSE IF e.out # "ok" THEN IF want = "yes" THEN "valid items refused" ELSE "ok"
    ELSE IF want = "no" THEN "invalid items accepted"
    ELSE IF ~Valid(e.kinds) THEN "reserved key missing or with an invalid value"
    ELSE IF e.src # "items" THEN "ok"
    ELSE IF DOMAIN e.kinds # Reserved \cup {x.k : x \in Items(e)} THEN "keys"
    ELSE IF \E i \in 1..Len(e.items) : ~e.items[i].eq \/ (~e.items[i].same /\ ~(e.items[i].kind = "int" /\ e.items[i].k \in Reserved)) THEN "item changed"
    ELSE IF \E k \in Reserved : (\A x \in Items(e) : x.k # k) /\ e.kinds[k] # "none" THEN "default of a reserved key"
    ELSE "ok"

Norm(o) == o.tob \in -1..1
Step(s, e) ==
    LET n == Len(s.obs)
        m(i) == e.obs[i].m
        old(i) == s.obs[i].m
        others(S) == \A i \in 1..n : i \in S \/ m(i) = old(i)
        callers == e.callers = s.callers
        base == [k \in {"source_name", "skycoord", "dm", "mjd", "fname"} |-> 0] IN
    IF e.out # "ok" THEN e.op \o ": " \o e.out
    ELSE IF \E i \in 1..Len(e.obs) : ~Norm(e.obs[i]) THEN "tobs is not the length of the data"
    ELSE IF \E i \in 1..Len(e.obs) : ~e.obs[i].valid THEN "reserved key missing or with an invalid value"
    ELSE IF e.op # "caller" /\ ~callers THEN "the caller's dict or Metadata changed"
    ELSE IF Len(e.obs) < n \/ ~others(IF e.op = "set" THEN {e.i} ELSE {}) THEN "metadata of another object changed"
    ELSE IF e.op = "new" /\ (Len(e.obs) # n + 1 \/ m(n + 1) # e.given @@ base) THEN "metadata of the new object"
    ELSE IF e.op \in {"copy", "again", "dict", "normalise", "deredden", "downsample"} /\ ~e.inplace
            /\ (Len(e.obs) # n + 1 \/ m(n + 1) # old(e.i)) THEN "metadata of the derived object"
    ELSE IF e.op = "set" /\ m(e.i) # Set(old(e.i), e.key, e.value) THEN "metadata set"
    ELSE IF e.op = "caller" /\ e.callers # [s.callers EXCEPT ![e.i] = Set(@, e.key, e.value)] THEN "caller's dict"
    ELSE IF e.op \in {"search", "candidate"} /\ \E j \in 1..Len(e.products) :
               e.products[j].m # old(e.i) \/ ~Norm(e.products[j]) \/ ~e.products[j].valid THEN "metadata of the " \o e.op
    ELSE "ok"
Verdict(e) == CASE e.e = "build" -> Build(e) [] e.e = "step" -> Step(st, e) [] e.e = "start" -> "ok" [] OTHER -> e.e
Init == l = 1 /\ st = [obs |-> <<>>, callers |-> <<>>]
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET e == Trace[l] v == Verdict(e) IN
          /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
          /\ st' = (CASE e.e = "start" -> [obs |-> <<>>, callers |-> e.callers]
                      [] e.e = "step" -> [obs |-> e.obs, callers |-> e.callers]
                      [] OTHER -> st)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1 /\ UNCHANGED st
===============================================================================
