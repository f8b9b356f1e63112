-------------------------------- MODULE Serial --------------------------------
(* Saving to and loading from JSON (C23).
   A value is a tree; every node is [t: kind, s: text, b: numbers, k: keys, c: children].
   Kinds: none bool int float str list dict (what JSON has), tuple npint npfloat array table sky (what it has not), and objects
   (TimeSeries, Periodogram, Candidate), whose children are their attributes, the last one being the version. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Current                                                 \* the version of the package
Node(t, s, b, k, c) == [t |-> t, s |-> s, b |-> b, k |-> k, c |-> c]
Plain == {"none", "bool", "int", "float", "str"}
Objects == {"TimeSeries", "Periodogram", "Candidate"}
StrNode(s) == Node("str", s, <<>>, <<>>, <<>>)
IntNode(i) == Node("int", ToString(i), <<i>>, <<>>, <<>>)
None == Node("none", "", <<>>, <<>>, <<>>)
\* ---- what loading gives back for a saved value
RECURSIVE Loaded(_)
Loaded(n) ==
    CASE n.t \in Plain -> n
      [] n.t = "npint" -> [n EXCEPT !.t = "int"]
      [] n.t = "npfloat" -> [n EXCEPT !.t = "float"]
      [] n.t \in {"list", "tuple"} -> [n EXCEPT !.t = "list", !.c = [i \in 1..Len(n.c) |-> Loaded(n.c[i])]]
      [] n.t = "dict" -> [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Loaded(n.c[i])]]
      [] n.t \in Objects ->
            [n EXCEPT !.c = [i \in 1..Len(n.c) |->
                IF n.k[i] = "version" THEN IF n.c[i] = None THEN StrNode(Current) ELSE n.c[i] ELSE Loaded(n.c[i])]]
      [] OTHER -> n                                              \* array, table, sky: as they were
\* ---- writing: a tree of JSON nodes only
Text(b) == Node("str", "", b, <<>>, <<>>)                       \* base 64 text of some bytes
Shape(b) == Node("list", "", <<>>, <<>>, [i \in 1..Len(b) |-> IntNode(b[i])])
RECURSIVE Written(_)
Written(n) ==
    CASE n.t \in Plain -> n
      [] n.t = "npint" -> [n EXCEPT !.t = "int"]
      [] n.t = "npfloat" -> [n EXCEPT !.t = "float"]
      [] n.t \in {"list", "tuple"} -> [n EXCEPT !.t = "list", !.c = [i \in 1..Len(n.c) |-> Written(n.c[i])]]
      [] n.t = "dict" -> [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Written(n.c[i])]]
      [] n.t = "array" -> Node("dict", "", <<>>, <<"__type__", "data", "dtype", "shape">>,
                               <<StrNode("array"), Text(n.c[1].b), StrNode(n.s), Shape(n.b)>>)
      [] n.t = "table" -> Node("dict", "", <<>>, <<"__type__", "values", "columns">>,
                               <<StrNode("table"), Written(n.c[1]), Node("list", "", <<>>, <<>>, [i \in 1..Len(n.k) |-> StrNode(n.k[i])])>>)
      [] n.t = "sky" -> Node("dict", "", <<>>, <<"__type__", "rajd", "decjd">>, <<StrNode("sky"), IntNode(n.b[1]), IntNode(n.b[2])>>)
      [] n.t \in Objects ->
            LET attrs == SelectSeq([i \in 1..Len(n.k) |-> i], LAMBDA i : n.k[i] # "version")
                v == n.c[CHOOSE i \in 1..Len(n.k) : n.k[i] = "version"] IN
            Node("dict", "", <<>>, [i \in 1..Len(attrs) |-> n.k[attrs[i]]] \o <<"__type__", "__version__">>,
                 [i \in 1..Len(attrs) |-> Written(n.c[attrs[i]])] \o <<StrNode(n.t), IF v = None THEN StrNode(Current) ELSE v>>)
\* ---- reading: the deepest nodes first; a dict with a __type__ becomes what it says
At(k, c, key) == c[CHOOSE i \in 1..Len(k) : k[i] = key]
Data(b) == Node("bytes", "", b, <<>>, <<>>)
Decode(k, c) ==                                                  \* of a dict whose children are decoded already
    IF "__type__" \notin {k[i] : i \in 1..Len(k)} THEN Node("dict", "", <<>>, k, c)
    ELSE LET t == At(k, c, "__type__").s IN
    CASE t = "array" -> Node("array", At(k, c, "dtype").s, [i \in 1..Len(At(k, c, "shape").c) |-> At(k, c, "shape").c[i].b[1]], <<>>,
                             <<Data(At(k, c, "data").b)>>)
      [] t = "table" -> Node("table", "", <<>>, [i \in 1..Len(At(k, c, "columns").c) |-> At(k, c, "columns").c[i].s], <<At(k, c, "values")>>)
      [] t = "sky" -> Node("sky", "", <<At(k, c, "rajd").b[1], At(k, c, "decjd").b[1]>>, <<>>, <<>>)
      [] OTHER -> LET attrs == SelectSeq([i \in 1..Len(k) |-> i], LAMBDA i : k[i] \notin {"__type__", "__version__"}) IN
                  Node(t, "", <<>>, [i \in 1..Len(attrs) |-> k[attrs[i]]] \o <<"version">>,
                       [i \in 1..Len(attrs) |-> c[attrs[i]]] \o <<At(k, c, "__version__")>>)
RECURSIVE Read(_)
Read(j) ==
    CASE j.t = "list" -> [j EXCEPT !.c = [i \in 1..Len(j.c) |-> Read(j.c[i])]]
      [] j.t = "dict" -> Decode(j.k, [i \in 1..Len(j.c) |-> Read(j.c[i])])
      [] OTHER -> j
\* ---- equality of loaded values; sky coordinates (degrees, and the rest in 1e-9 degrees) may differ by rounding
CloseSky(a, b) == \A i \in {1, 3} : LET d == (a[i] - b[i]) * 1000000000 + (a[i + 1] - b[i + 1]) IN
                                    (a[i] = b[i] \/ a[i] - b[i] \in {-1, 1}) /\ d \in -3..3
RECURSIVE Same(_, _)
Same(a, b) ==
    /\ a.t = b.t /\ a.s = b.s /\ Len(a.c) = Len(b.c) /\ a.k = b.k
    /\ IF a.t = "sky" THEN CloseSky(a.b, b.b) ELSE a.b = b.b
    /\ \A i \in 1..Len(a.c) : Same(a.c[i], b.c[i])
===============================================================================
