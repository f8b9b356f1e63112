--------------------------- MODULE TraceTimeSeries ---------------------------
(* Conformance of sequences of TimeSeries operations (C09).  Each event is one operation with the state of all live
   objects after it: e.obs[i] = [x: identity of the exact samples, a: identity of the samples up to rounding, t: sampling
   time in units, n, m: identity of the metadata but tobs, f32, tob: error of tobs and metadata tobs in 1e-12],
   e.arr: identity of the caller's array, e.dict: of the caller's dict, e.sh: pairs of objects sharing memory (0: array).
   The state of the machine: the previous observation, the set of objects built without copy, and what each operation
   was seen to give on each input. *)
EXTENDS TimeSeries, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st

Blank == [obs |-> <<>>, arr |-> 0, dict |-> 0, sh |-> {}, ref |-> {}, memo |-> <<>>]
Pairs(e) == {<<e.sh[k][1], e.sh[k][2]>> : k \in 1..Len(e.sh)}
Group(s, i) == {j \in 0..Len(s.obs) : \E p \in s.sh : p = <<i, j>> \/ p = <<j, i>>}

Key(s, e) == <<e.op, e.par, s.obs[e.i].x, s.obs[e.i].t>>
Known(s, k) == {v \in {s.memo[j] : j \in 1..Len(s.memo)} : v[1] = k}
Agrees(s, k, a) == \A v \in Known(s, k) : v[2] = a

Numbers(o) == /\ o.f32 /\ o.tob \in -1..1
Values == {"normalise", "deredden", "downsample", "copy"}

\* attributes of the result of operation e on object o
Attr(e, o, r) ==
    /\ r.m = o.m
    /\ r.t = (IF e.op = "downsample" THEN DownT(o.t, e.num, e.den) ELSE o.t)
    /\ r.n = (IF e.op = "downsample" THEN DownN(o.n, e.num, e.den) ELSE o.n)
Unit(e, r) == e.op # "normalise" \/ e.flat \/ (e.mean \in -2..2 /\ e.var \in 999998..1000002)

Refused(s, e) ==
    IF e.out # "ValueError" THEN "operation failed"
    ELSE IF ~((e.op = "downsample" /\ ~DownValid(s.obs[e.i].n, e.num, e.den)) \/ (e.op \in {"deredden", "fold"} /\ e.may))
    THEN "valid operation refused"
    ELSE IF e.obs # s.obs \/ e.arr # s.arr \/ e.dict # s.dict THEN "refused operation modified something"
    ELSE IF ~Agrees(s, Key(s, e), 0) THEN "in-place and out-of-place forms differ"
    ELSE "ok"

Step(s, e) ==
    LET n == Len(s.obs)
        same(i) == e.obs[i] = s.obs[i]
        callers == e.arr = s.arr /\ e.dict = s.dict
        new == e.obs[Len(e.obs)]
        Fresh == \A j \in 0..n : <<j, n + 1>> \notin Pairs(e)
    IN
    IF e.op # "new" /\ e.out # "ok" THEN Refused(s, e)
    ELSE IF \E i \in 1..Len(e.obs) : ~Numbers(e.obs[i]) THEN "data not float32, or tobs is not nsamp x tsamp"
    ELSE IF \E p \in Pairs(e) : \E k \in {p[1], p[2]} : k # 0 /\ k \notin (s.ref \union (IF e.op = "new" /\ ~e.copy THEN {n + 1} ELSE {}))
    THEN "object shares memory"
    ELSE IF e.op = "new" THEN
        IF e.out # "ok" THEN "cannot build"
        ELSE IF ~callers \/ Len(e.obs) # n + 1 \/ \E i \in 1..n : ~same(i) THEN "building an object modified something"
        ELSE IF new.a # e.want \/ new.t # e.t0 \/ new.n # e.n0 THEN "values, sampling time or length of the new object"
        ELSE IF new.m # e.m0 THEN "metadata of the new object"
        ELSE "ok"
    ELSE IF e.op = "fold" THEN
        IF ~callers \/ e.obs # s.obs THEN "folding modified something"
        ELSE IF ~e.fresh THEN "folded array shares memory"
        ELSE IF ~Agrees(s, Key(s, e), e.res) THEN "not repeatable" ELSE "ok"
    ELSE IF e.op \in Values /\ ~e.inplace THEN
        IF e.ret # "object" \/ Len(e.obs) # n + 1 THEN "no new object returned"
        ELSE IF ~callers \/ \E i \in 1..n : ~same(i) THEN "source or another object modified"
        ELSE IF ~Attr(e, s.obs[e.i], new) THEN "sampling time, length or metadata of the result"
        ELSE IF e.op = "copy" /\ new.x # s.obs[e.i].x THEN "copy differs"
        ELSE IF ~Agrees(s, Key(s, e), new.a) THEN "in-place and out-of-place forms differ"
        ELSE IF ~Unit(e, new) THEN "not zero mean and unit variance"
        ELSE "ok"
    ELSE IF e.op \in Values THEN
        LET r == e.obs[e.i] IN
        IF e.ret # "none" THEN "in-place operation returned something"
        ELSE IF Len(e.obs) # n \/ e.dict # s.dict \/ (e.arr # s.arr /\ 0 \notin Group(s, e.i))
                \/ \E j \in 1..n : j # e.i /\ ~same(j) /\ j \notin Group(s, e.i)
        THEN "another object modified"
        ELSE IF ~Attr(e, s.obs[e.i], r) THEN "sampling time, length or metadata of the result"
        ELSE IF ~Agrees(s, Key(s, e), r.a) THEN "in-place and out-of-place forms differ"
        ELSE IF ~Unit(e, r) THEN "not zero mean and unit variance"
        ELSE "ok"
    ELSE IF e.op = "write" THEN
        IF e.dict # s.dict \/ (e.arr # s.arr /\ 0 \notin Group(s, e.i))
           \/ \E j \in 1..n : j # e.i /\ ~same(j) /\ j \notin Group(s, e.i)
        THEN "objects not independent" ELSE "ok"
    ELSE IF e.op = "array" THEN
        IF e.dict # s.dict \/ \E j \in 1..n : ~same(j) /\ j \notin Group(s, 0) THEN "object follows the caller's array" ELSE "ok"
    ELSE IF e.op = "meta" THEN
        IF ~callers \/ (\E j \in 1..n : j # e.i /\ ~same(j)) \/ [e.obs[e.i] EXCEPT !.m = 0] # [s.obs[e.i] EXCEPT !.m = 0]
        THEN "metadata shared" ELSE IF e.obs[e.i].m # e.want THEN "metadata lost" ELSE "ok"
    ELSE "unknown operation"

Result(s, e) == IF e.out # "ok" THEN 0 ELSE IF e.op = "fold" THEN e.res
                ELSE IF e.inplace THEN e.obs[e.i].a ELSE e.obs[Len(e.obs)].a
After(s, e) ==
    [obs |-> e.obs, arr |-> e.arr, dict |-> e.dict, sh |-> Pairs(e),
     ref |-> IF e.op = "new" /\ ~e.copy /\ e.out = "ok" THEN s.ref \union {Len(e.obs)} ELSE s.ref,
     memo |-> IF e.op \in Values \union {"fold"} THEN Append(s.memo, <<Key(s, e), Result(s, e)>>) ELSE s.memo]

Verdict(s, e) == CASE e.e = "start" -> "ok" [] e.e = "step" -> Step(s, e) [] OTHER -> e.e
Init == l = 1 /\ st = Blank
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET e == Trace[l] v == Verdict(st, e)
          IN  /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
              /\ st' = CASE e.e = "start" -> [Blank EXCEPT !.arr = e.arr, !.dict = e.dict]
                         [] e.e = "step" -> After(st, e)
                         [] OTHER -> st
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1 /\ st' = st
=============================================================================
