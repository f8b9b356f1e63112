---------------------------- MODULE MC_TimeSeries ----------------------------
(* Heap machine of TimeSeries operations.  Buffers and metadata dicts are heap cells; an object points to one of
   each.  `val` is the value each object should have (value semantics); TLC checks that the heap machine, with the
   allocation discipline of the code, implements it for every object that does not share the caller's array, in every
   sequence of operations up to DEPTH.  The histories it explores are replayed in the real code. *)
EXTENDS TimeSeries, TLC, Json
CONSTANTS DEPTH, MAXOBJ, N0, T0, GEN

VARIABLES heap,      \* sequence of content terms (buffer contents)
          dicts,     \* sequence of metadata values (number of keys set)
          objs,      \* sequence of [buf, dict, t, n]
          val,       \* sequence of [c, t, n, m]: value semantics
          ref,       \* objects built on the caller's array without a copy
          hist
vars == <<heap, dicts, objs, val, ref, hist>>

\* buffer 1 is the caller's array, dict 1 the caller's dict
Init == /\ heap = <<<<"a">>>> /\ dicts = <<0>> /\ objs = <<>> /\ val = <<>> /\ ref = {} /\ hist = <<>>

Log(x) == hist' = Append(hist, x)

New(copy) ==
    /\ Len(objs) < MAXOBJ
    /\ dicts' = Append(dicts, dicts[1])                                   \* Metadata() makes its own dict
    /\ heap' = IF copy THEN Append(heap, heap[1]) ELSE heap
    /\ objs' = Append(objs, [buf |-> IF copy THEN Len(heap) + 1 ELSE 1, dict |-> Len(dicts) + 1, t |-> T0, n |-> N0])
    /\ val' = Append(val, [c |-> heap[1], t |-> T0, n |-> N0, m |-> dicts[1]])
    /\ ref' = IF copy THEN ref ELSE ref \union {Len(objs) + 1}
    /\ Log([op |-> "new", i |-> 0, copy |-> copy, num |-> 0, den |-> 0, inplace |-> FALSE])

Kinds == {[k |-> "normalise", num |-> 1, den |-> 1], [k |-> "deredden", num |-> 1, den |-> 1],
          [k |-> "downsample", num |-> 2, den |-> 1], [k |-> "downsample", num |-> 3, den |-> 2]}

Possible(o, op) == op.k # "downsample" \/ DownValid(o.n, op.num, op.den)
Result(o, op) == Apply(op, [c |-> heap[o.buf], t |-> o.t, n |-> o.n, m |-> dicts[o.dict]])

OutOfPlace(i, op) ==
    /\ Len(objs) < MAXOBJ /\ Possible(objs[i], op)
    /\ LET r == Result(objs[i], op)
       IN  /\ heap' = Append(heap, r.c)
           /\ dicts' = Append(dicts, dicts[objs[i].dict])
           /\ objs' = Append(objs, [buf |-> Len(heap) + 1, dict |-> Len(dicts) + 1, t |-> r.t, n |-> r.n])
    /\ val' = Append(val, Apply(op, IF i \in ref THEN [val[i] EXCEPT !.c = heap[objs[i].buf]] ELSE val[i]))
    /\ ref' = ref
    /\ Log([op |-> op.k, i |-> i, copy |-> FALSE, num |-> op.num, den |-> op.den, inplace |-> FALSE])

\* in place: dereddening writes through the buffer, the others replace it
InPlace(i, op) ==
    /\ Possible(objs[i], op)
    /\ LET r == Result(objs[i], op)
       IN  IF op.k = "deredden"
           THEN /\ heap' = [heap EXCEPT ![objs[i].buf] = r.c] /\ objs' = objs
                /\ val' = [j \in 1..Len(val) |-> IF j = i THEN Apply(op, val[i]) ELSE val[j]]
           ELSE /\ heap' = Append(heap, r.c)
                /\ objs' = [objs EXCEPT ![i] = [@ EXCEPT !.buf = Len(heap) + 1, !.t = r.t, !.n = r.n]]
                /\ val' = [val EXCEPT ![i] = Apply(op, @)]
    /\ UNCHANGED <<dicts, ref>>
    /\ Log([op |-> op.k, i |-> i, copy |-> FALSE, num |-> op.num, den |-> op.den, inplace |-> TRUE])

\* the user writes into the samples of an object, the caller's array, or the metadata of an object
WriteData(i) ==
    /\ heap' = [heap EXCEPT ![objs[i].buf] = Append(@, "w")]
    /\ val' = [val EXCEPT ![i].c = Append(@, "w")]
    /\ UNCHANGED <<dicts, objs, ref>>
    /\ Log([op |-> "write", i |-> i, copy |-> FALSE, num |-> 0, den |-> 0, inplace |-> TRUE])
WriteArray ==
    /\ objs # <<>>
    /\ heap' = [heap EXCEPT ![1] = Append(@, "w")]
    /\ UNCHANGED <<dicts, objs, ref, val>>
    /\ Log([op |-> "array", i |-> 0, copy |-> FALSE, num |-> 0, den |-> 0, inplace |-> TRUE])
SetMeta(i) ==
    /\ dicts' = [dicts EXCEPT ![objs[i].dict] = @ + 1]
    /\ val' = [val EXCEPT ![i].m = @ + 1]
    /\ UNCHANGED <<heap, objs, ref>>
    /\ Log([op |-> "meta", i |-> i, copy |-> FALSE, num |-> 0, den |-> 0, inplace |-> TRUE])
Fold(i) == /\ UNCHANGED <<heap, dicts, objs, val, ref>>
           /\ Log([op |-> "fold", i |-> i, copy |-> FALSE, num |-> 0, den |-> 0, inplace |-> FALSE])

Next ==
    /\ Len(hist) < DEPTH
    /\ \/ \E c \in BOOLEAN : New(c)
       \/ \E i \in 1..Len(objs) :
            \/ \E op \in Kinds : OutOfPlace(i, op) \/ InPlace(i, op)
            \/ OutOfPlace(i, [k |-> "copy", num |-> 1, den |-> 1])
            \/ WriteData(i) \/ SetMeta(i) \/ Fold(i)
       \/ WriteArray
Spec == Init /\ [][Next]_vars

Emit == (GEN /\ Len(hist) = DEPTH) => PrintT(<<"HIST", ToJson(hist)>>)

------------------------------------------------------------------------------
\* objects that do not share the caller's array have exactly the value prescribed
ValueSemantics ==
    \A i \in 1..Len(objs) : i \notin ref =>
        [c |-> heap[objs[i].buf], t |-> objs[i].t, n |-> objs[i].n, m |-> dicts[objs[i].dict]] = val[i]
\* sampling, length and metadata hold even for those
Attributes ==
    \A i \in 1..Len(objs) : objs[i].t = val[i].t /\ objs[i].n = val[i].n /\ dicts[objs[i].dict] = val[i].m
Independent ==
    \A i, j \in 1..Len(objs) : i # j =>
        /\ objs[i].dict # objs[j].dict /\ objs[i].dict # 1
        /\ objs[i].buf = objs[j].buf => {i, j} \subseteq ref
Separate == \A i \in 1..Len(objs) : i \notin ref => objs[i].buf # 1
\* the total length never grows
Shrinks == \A i \in 1..Len(objs) : objs[i].n * objs[i].t <= N0 * T0
View == <<heap, dicts, objs, val, ref>>
==============================================================================
