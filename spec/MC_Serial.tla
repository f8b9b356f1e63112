------------------------------ MODULE MC_Serial -------------------------------
(* Histories of saving, loading and changing values in place: every value up to a depth, loaded any number of times. *)
EXTENDS Serial
CONSTANTS DEPTH, WIDTH, STEPS
VARIABLES mem, orig, file, saved, n
vars == <<mem, orig, file, saved, n>>
\* mem: the values in memory, each of its own; the first one is the original.  saved: the value at the time of the save
Leaf == {None, IntNode(1), Node("float", "", <<3>>, <<>>, <<>>), Node("npint", "", <<1>>, <<>>, <<>>), Node("npfloat", "", <<3>>, <<>>, <<>>)}
Arrays == {Node("array", d, sh, <<>>, <<Data(b)>>) : d \in {"f4", ">f4"}, sh \in {<<>>, <<2>>, <<1, 2>>}, b \in {<<1, 2>>}}
Skies == {Node("sky", "", <<10, -20>>, <<>>, <<>>)}
Versions == {None, StrNode("old")}
TimeSeries(meta) == {Node("TimeSeries", "", <<>>, <<"data", "metadata", "version">>, <<a, meta, v>>) : a \in Arrays, v \in Versions}
Tables == {Node("table", "", <<>>, <<"x", "y">>, <<a>>) : a \in Arrays}
Meta(v) == Node("dict", "", <<>>, <<"skycoord", "extra">>, <<Node("sky", "", <<10, -20>>, <<>>, <<>>), v>>)
Base == Leaf \cup Arrays \cup Skies \cup Tables \cup UNION {TimeSeries(Meta(v)) : v \in Leaf}
RECURSIVE Values(_)
Values(d) ==
    IF d = 0 THEN Base
    ELSE LET V == Values(d - 1) IN
         V \cup {Node(t, "", <<>>, <<>>, c) : t \in {"list", "tuple"}, c \in UNION {[1..m -> V] : m \in 0..WIDTH}}
           \cup {Node("dict", "", <<>>, <<"a", "b">>, <<v, None>>) : v \in V}
           \cup {Node("Candidate", "", <<>>, <<"peaks", "version">>, <<v, w>>) : v \in V, w \in Versions}
Init == \E v \in Values(DEPTH) : mem = <<v>> /\ orig = v /\ file = None /\ saved = None /\ n = 0
Save(i) == file' = Written(mem[i]) /\ saved' = mem[i] /\ UNCHANGED <<mem, orig>>
Load == saved # None /\ Len(mem) < 3 /\ mem' = Append(mem, Read(file)) /\ UNCHANGED <<orig, file, saved>>
\* a value in memory is changed in place (here: replaced); nothing else changes
Change(i) == i > 1 /\ mem' = [mem EXCEPT ![i] = IntNode(7)] /\ UNCHANGED <<orig, file, saved>>
Next == n < STEPS /\ n' = n + 1 /\ (Load \/ \E i \in 1..Len(mem) : Save(i) \/ Change(i))
Spec == Init /\ [][Next]_vars
RoundTrip == saved # None => Read(file) = Loaded(saved)
OriginalKept == mem[1] = orig
\* what was loaded once is saved and loaded again without any change
Stable == saved # None => Read(Written(Read(file))) = Read(file)
RECURSIVE JsonOnly(_)
JsonOnly(j) == j.t \in Plain \cup {"list", "dict"} /\ \A i \in 1..Len(j.c) : JsonOnly(j.c[i])
FileIsJson == JsonOnly(file)
===============================================================================
