-------------------------------- MODULE Config --------------------------------
(* What a pipeline configuration may hold (C20), after the documented model configuration.
   A configuration is described by how it differs from a complete, valid one: a set of mutations [k |-> key, t |-> token]. *)
EXTENDS Num, FiniteSets, TLC, Sequences

\* kinds of values
K(key, type, opt, blank) == [key |-> key, type |-> type, opt |-> opt, blank |-> blank]
TopKeys == {
    K("processes", "posint", FALSE, FALSE),
    K("data.format", "format", FALSE, FALSE),
    K("data.fmin", "posnum", FALSE, TRUE), K("data.fmax", "posnum", FALSE, TRUE), K("data.nchans", "posint", FALSE, TRUE),
    K("dmselect.min", "num", FALSE, TRUE), K("dmselect.max", "num", FALSE, TRUE), K("dmselect.dmsinb_max", "posraw", FALSE, TRUE),
    K("dereddening.rmed_width", "posraw", FALSE, FALSE), K("dereddening.rmed_minpts", "pospts", FALSE, FALSE),
    K("clustering.radius", "posraw", FALSE, FALSE),
    K("harmonic_flagging.denom_max", "posint", FALSE, FALSE), K("harmonic_flagging.phase_distance_max", "posnum", FALSE, FALSE),
    K("harmonic_flagging.dm_distance_max", "posnum", FALSE, FALSE), K("harmonic_flagging.snr_distance_max", "posnum", FALSE, FALSE),
    K("candidate_filters.dm_min", "num", FALSE, TRUE), K("candidate_filters.snr_min", "num", FALSE, TRUE),
    K("candidate_filters.remove_harmonics", "bool", FALSE, TRUE), K("candidate_filters.max_number", "posint", FALSE, TRUE),
    K("plot_candidates", "bool", FALSE, FALSE) }
RangeKeys(p) == {
    K(p \o "name", "str", FALSE, FALSE),
    K(p \o "ffa_search.period_min", "posnum", FALSE, FALSE), K(p \o "ffa_search.period_max", "posnum", FALSE, FALSE),
    K(p \o "ffa_search.bins_min", "posint", FALSE, FALSE), K(p \o "ffa_search.bins_max", "posint", FALSE, FALSE),
    K(p \o "ffa_search.fpmin", "posint", TRUE, FALSE), K(p \o "ffa_search.wtsp", "gt1", TRUE, FALSE),
    K(p \o "ffa_search.ducy_max", "ducy", TRUE, FALSE),
    K(p \o "find_peaks.smin", "posnum", TRUE, FALSE), K(p \o "find_peaks.segwidth", "posnum", TRUE, FALSE),
    K(p \o "find_peaks.nstd", "posnum", TRUE, FALSE), K(p \o "find_peaks.minseg", "posint", TRUE, FALSE),
    K(p \o "find_peaks.polydeg", "pospts", TRUE, FALSE), K(p \o "find_peaks.clrad", "posclr", TRUE, FALSE),
    K(p \o "candidates.bins", "posint", FALSE, FALSE), K(p \o "candidates.subints", "posint", FALSE, TRUE) }
Sections == {
    K("data", "section", FALSE, FALSE), K("dmselect", "section", FALSE, FALSE), K("dereddening", "section", FALSE, FALSE),
    K("clustering", "section", FALSE, FALSE), K("harmonic_flagging", "section", FALSE, FALSE), K("candidate_filters", "section", FALSE, FALSE),
    K("ranges", "list", FALSE, FALSE), K("ranges.1", "entry", FALSE, FALSE),
    K("ranges.0.ffa_search", "section", FALSE, FALSE), K("ranges.0.candidates", "section", FALSE, FALSE),
    K("ranges.0.find_peaks", "blanksection", FALSE, TRUE), K("ranges.1.find_peaks", "blanksection", FALSE, TRUE) }
\* places where a key that does not exist may be added
Extras == {K(s \o "unknown_key", "unknown", TRUE, FALSE) :
              s \in {"", "data.", "dmselect.", "dereddening.", "clustering.", "harmonic_flagging.", "candidate_filters.",
                     "ranges.0.", "ranges.1.", "ranges.0.ffa_search.", "ranges.0.find_peaks.", "ranges.1.candidates."}}
Keys == TopKeys \union RangeKeys("ranges.0.") \union RangeKeys("ranges.1.") \union Sections \union Extras
KeyOf(name) == CHOOSE k \in Keys : k.key = name

\* values tried: class and position with respect to the limits 0 and 1
T(c, pos, in01, gt1) == [c |-> c, pos |-> pos, in01 |-> in01, gt1 |-> gt1]
TokenTable ==
    [ int3 |-> T("int", TRUE, FALSE, TRUE), int1 |-> T("int", TRUE, FALSE, FALSE), int0 |-> T("int", FALSE, FALSE, FALSE),
      negint |-> T("int", FALSE, FALSE, FALSE), big |-> T("int", TRUE, FALSE, TRUE),
      f25 |-> T("float", TRUE, FALSE, TRUE), half |-> T("float", TRUE, TRUE, FALSE), f1 |-> T("float", TRUE, FALSE, FALSE),
      f0 |-> T("float", FALSE, FALSE, FALSE), negf |-> T("float", FALSE, FALSE, FALSE), f3 |-> T("float", TRUE, FALSE, TRUE),
      tiny |-> T("float", TRUE, TRUE, FALSE), above1 |-> T("float", TRUE, FALSE, TRUE), below1 |-> T("float", TRUE, TRUE, FALSE),
      nan |-> T("nan", FALSE, FALSE, FALSE), inf |-> T("odd", TRUE, FALSE, TRUE), npf |-> T("odd", TRUE, FALSE, TRUE),
      npi |-> T("odd", TRUE, FALSE, TRUE), frac |-> T("odd", TRUE, FALSE, TRUE), numstr |-> T("numstr", TRUE, FALSE, TRUE),
      word |-> T("str", FALSE, FALSE, FALSE), empty |-> T("str", FALSE, FALSE, FALSE), presto |-> T("fmt", FALSE, FALSE, FALSE),
      sigproc |-> T("fmt", FALSE, FALSE, FALSE), Presto |-> T("str", FALSE, FALSE, FALSE),
      true |-> T("bool", FALSE, FALSE, FALSE), false |-> T("bool", FALSE, FALSE, FALSE),
      list |-> T("list", FALSE, FALSE, FALSE), dict |-> T("dict", FALSE, FALSE, FALSE), listnum |-> T("list", FALSE, FALSE, FALSE),
      null |-> T("null", FALSE, FALSE, FALSE), missing |-> T("missing", FALSE, FALSE, FALSE) ]
Tokens == DOMAIN TokenTable
Num3(b) == IF b THEN "yes" ELSE "no"

\* "yes": must be accepted, "no": must be refused, "any": the documentation does not say
Allowed(k, tok) ==
    LET v == TokenTable[tok] IN
    IF k.type = "unknown" THEN (IF tok = "missing" THEN "yes" ELSE "no")
    ELSE IF v.c = "missing" THEN (IF k.opt THEN "yes" ELSE "no")
    ELSE IF v.c = "null" THEN (IF k.type = "posclr" THEN "any" ELSE IF k.blank THEN "yes" ELSE "no")
    ELSE CASE k.type = "posint" ->
                 (CASE v.c = "int" -> Num3(v.pos) [] v.c \in {"bool"} \/ tok = "npi" -> "any" [] OTHER -> "no")
           [] k.type \in {"posnum", "posraw", "pospts", "posclr"} ->
                 (CASE v.c = "int" -> Num3(v.pos) [] v.c = "float" -> (IF v.pos /\ k.type = "pospts" THEN "any" ELSE Num3(v.pos))
                    [] v.c \in {"odd", "numstr", "bool"} -> "any" [] OTHER -> "no")
           [] k.type = "num" ->
                 (CASE v.c \in {"int", "float"} -> "yes" [] v.c \in {"odd", "numstr", "bool", "nan"} -> "any" [] OTHER -> "no")
           [] k.type = "gt1" ->
                 (CASE v.c \in {"int", "float"} -> Num3(v.gt1) [] v.c \in {"odd", "numstr"} -> "any" [] OTHER -> "no")
           [] k.type = "ducy" ->
                 (CASE v.c \in {"int", "float"} -> Num3(v.in01) [] OTHER -> "no")
           [] k.type = "bool" -> (IF v.c = "bool" THEN "yes" ELSE "no")
           [] k.type = "str" -> (IF v.c \in {"str", "fmt", "numstr"} THEN "yes" ELSE "no")
           [] k.type = "format" -> (IF v.c = "fmt" THEN "yes" ELSE "no")
           [] k.type = "blanksection" -> (IF v.c = "dict" THEN "yes" ELSE "no")
           [] OTHER -> "no"                                   \* sections, list, entry: anything but the real thing
\* a set of mutations of distinct, unrelated keys
Accepted(ms) ==
    LET a == {Allowed(KeyOf(m.k), m.t) : m \in ms}
    IN  IF "no" \in a THEN "no" ELSE IF "any" \in a THEN "any" ELSE "yes"
\* keys whose integers are turned into floats
Converted(k) == k.type \in {"posnum", "num", "gt1"}

\* ---- ranges against the sampling time.  r: [pmin, bmin, cb] in units of the sampling time grid; contiguity as exact triples
RangesRight(rs, tmax) ==
    /\ \A i \in 1..Len(rs) : rs[i].bmin * tmax <= rs[i].pmin /\ rs[i].cb * tmax <= rs[i].pmin
    /\ \A i \in 1..(Len(rs) - 1) : rs[i].hi = rs[i + 1].lo
===============================================================================
