-------------------------------- MODULE MC_Meta --------------------------------
(* Heap machine of metadata.  Cells hold maps; the caller's dict is cell 1 and his Metadata object cell 2; each TimeSeries has a cell.
   Every object is given a cell of its own when it is built; periodograms and candidates are only looked at when made.  val: what each
   object should hold.  The histories are replayed in the real code. *)
EXTENDS Meta, Json
CONSTANTS DEPTH, MAXOBJ, GEN
VARIABLES cells, objs, val, hist, seen
vars == <<cells, objs, val, hist, seen>>
Keys == {"dm", "extra"}
\* length of the data: a number that only downsampling changes
Start == [k \in {"dm"} |-> 1]
Init == /\ cells = <<Start, Completed(Set(Start, "extra", 2), 0)>> /\ objs = <<>> /\ val = <<>> /\ hist = <<>> /\ seen = <<>>
Rec(op, i, key, inplace) == hist' = Append(hist, [op |-> op, i |-> i, key |-> key, inplace |-> inplace])
\* objects: [cell, len]
Sources == {"dict", "meta", "none", "generate", "numpy", "presto", "sigproc"}
Items(src) == CASE src = "dict" -> cells[1] [] src = "meta" -> cells[2] [] OTHER -> [k \in {} |-> 0]
New(src) ==
    /\ Len(objs) < MAXOBJ
    /\ LET m == Set(Completed(Items(src), 0), "tobs", 100) IN
       /\ cells' = Append(cells, m)
       /\ val' = Append(val, m)
    /\ objs' = Append(objs, [cell |-> Len(cells) + 1, len |-> 100])
    /\ UNCHANGED seen
    /\ Rec("new", 0, src, FALSE)
Ops == {"copy", "normalise", "deredden", "downsample", "again", "dict"}
Len2(op, len) == IF op = "downsample" THEN len \div 2 ELSE len
Derive(i, op) ==
    /\ Len(objs) < MAXOBJ
    /\ LET len == Len2(op, objs[i].len)
           m == Set(Completed(cells[objs[i].cell], 0), "tobs", len) IN
       /\ cells' = Append(cells, m)
       /\ objs' = Append(objs, [cell |-> Len(cells) + 1, len |-> len])
       /\ val' = Append(val, Set(val[i], "tobs", len))
    /\ UNCHANGED seen
    /\ Rec(op, i, "", FALSE)
InPlace(i, op) ==
    /\ LET len == Len2(op, objs[i].len) IN
       /\ objs' = [objs EXCEPT ![i].len = len]
       /\ cells' = [cells EXCEPT ![objs[i].cell] = IF op = "downsample" THEN Set(@, "tobs", len) ELSE @]
       /\ val' = [val EXCEPT ![i] = Set(@, "tobs", len)]
    /\ UNCHANGED seen
    /\ Rec(op, i, "", TRUE)
SetKey(i, key) ==
    /\ cells' = [cells EXCEPT ![objs[i].cell] = Set(@, key, Len(hist) + 10)]
    /\ val' = [val EXCEPT ![i] = Set(@, key, Len(hist) + 10)]
    /\ UNCHANGED <<objs, seen>>
    /\ Rec("set", i, key, TRUE)
SetCaller(c, key) ==
    /\ cells' = [cells EXCEPT ![c] = Set(@, key, Len(hist) + 10)]
    /\ UNCHANGED <<objs, val, seen>>
    /\ Rec("caller", c, key, TRUE)
Look(i, what) ==
    /\ seen' = Append(seen, cells[objs[i].cell] = val[i])
    /\ UNCHANGED <<cells, objs, val>>
    /\ Rec(what, i, "", FALSE)
Next ==
    /\ Len(hist) < DEPTH
    /\ \/ \E s \in Sources : New(s)
       \/ \E i \in 1..Len(objs) :
            \/ \E op \in Ops : Derive(i, op)
            \/ \E op \in {"normalise", "deredden", "downsample"} : InPlace(i, op)
            \/ \E k \in Keys : SetKey(i, k)
            \/ \E what \in {"search", "candidate"} : Look(i, what)
       \/ objs # <<>> /\ \E c \in {1, 2}, k \in Keys : SetCaller(c, k)
Spec == Init /\ [][Next]_vars
Emit == (GEN /\ Len(hist) = DEPTH) => PrintT(<<"HIST", ToJson(hist)>>)
ValueSemantics == \A i \in 1..Len(objs) : cells[objs[i].cell] = val[i] /\ val[i]["tobs"] = objs[i].len
AllReserved == \A i \in 1..Len(objs) : Reserved \subseteq DOMAIN cells[objs[i].cell]
Independent == \A i, j \in 1..Len(objs) : objs[i].cell > 2 /\ (i # j => objs[i].cell # objs[j].cell)
Carried == \A i \in 1..Len(seen) : seen[i]
\* the acceptance rules: nothing that is refused could be held, and what is held is accepted
Rules == /\ \A k \in Reserved, x \in Kinds : (Holds(k, x) => Accepts(k, x) # "no") /\ (Accepts(k, x) = "yes" => Holds(k, x))
         /\ \A x \in Kinds : (Accepts("any", x) = "yes") = (x \in Json)
View == <<cells, objs, val, seen>>
===============================================================================
