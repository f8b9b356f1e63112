----------------------------- MODULE TracePresto ------------------------------
(* Conformance of the PRESTO reader (C22).  The lines of each .inf file are parsed here; the conversion of a decimal number to the
   nearest double comes with the event (f: its bytes, or nothing when the text is not a number). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* ---- text
Char(s, i) == SubSeq(s, i, i)
Blank(c) == c \in {" ", "\t"}
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF Len(s) > 0 /\ Blank(Char(s, 1)) THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
RTrim(s) == IF Len(s) > 0 /\ Blank(Char(s, Len(s))) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
Column == 41                                                     \* of the "="
Standard(line) == Len(line) >= Column /\ Char(line, Column) = "="
ValueText(line) == Trim(SubSeq(line, Column + 1, Len(line)))
Digits == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6
                [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
Signed(s) == Len(s) > 0 /\ Char(s, 1) \in {"+", "-"}
Body(s) == IF Signed(s) THEN SubSeq(s, 2, Len(s)) ELSE s
IsInt(s) == Len(Body(s)) > 0 /\ \A i \in 1..Len(Body(s)) : Char(Body(s), i) \in DOMAIN Digits
RECURSIVE Natural(_)
Natural(s) == IF s = "" THEN 0 ELSE 10 * Natural(SubSeq(s, 1, Len(s) - 1)) + Digits[Char(s, Len(s))]
ToInt(s) == IF Char(s, 1) = "-" THEN -Natural(Body(s)) ELSE Natural(Body(s))
Commas(s) == {i \in 1..Len(s) : Char(s, i) = ","}
Split(s) == LET i == CHOOSE i \in Commas(s) : TRUE IN <<Trim(SubSeq(s, 1, i - 1)), Trim(SubSeq(s, i + 1, Len(s)))>>
\* ---- the fields.  v: [s: text, f: bytes of the number it spells]
HeadField == <<[k |-> "basename", t |-> "str"], [k |-> "telescope", t |-> "str"], [k |-> "instrument", t |-> "str"],
    [k |-> "source_name", t |-> "str"], [k |-> "raj", t |-> "str"], [k |-> "decj", t |-> "str"], [k |-> "observer", t |-> "str"],
    [k |-> "mjd", t |-> "float"], [k |-> "barycentered", t |-> "bool"], [k |-> "nsamp", t |-> "int"], [k |-> "tsamp", t |-> "float"],
    [k |-> "breaks", t |-> "bool"]>>
Radio == <<[k |-> "fov_arcsec", t |-> "float"], [k |-> "dm", t |-> "float"], [k |-> "fbot", t |-> "float"],
    [k |-> "bandwidth", t |-> "float"], [k |-> "nchan", t |-> "int"], [k |-> "cbw", t |-> "float"], [k |-> "analyst", t |-> "str"]>>
HighEnergy == <<[k |-> "fov_arcsec", t |-> "float"], [k |-> "central_energy_kev", t |-> "float"],
    [k |-> "energy_bandpass_kev", t |-> "float"], [k |-> "analyst", t |-> "str"]>>
Block(v) == CASE v.s = "Radio" -> Radio [] v.s \in {"X-ray", "Gamma"} -> HighEnergy [] OTHER -> <<>>
OK(t, v) == CASE t = "str" -> TRUE [] t = "float" -> v.f # <<>> [] t \in {"int", "bool"} -> IsInt(v.s)
Rep(t, v) == CASE t = "str" -> v.s [] t = "float" -> v.f [] t = "int" -> ToInt(v.s) [] t = "bool" -> IF ToInt(v.s) = 0 THEN 0 ELSE 1
HeadOKD(i, v) == OK(HeadField[i].t, v)
TruthD(v) == ToInt(v.s) # 0
IsPairD(v) == Cardinality(Commas(v.s)) = 1 /\ LET p == Split(v.s) IN IsInt(p[1]) /\ IsInt(p[2])
BlockLenD(v) == Len(Block(v))
BlockOKD(b, i, v) == OK(Block(b)[i].t, v)
\* only the text decides what is the artificial telescope
FakeName == "None (Artificial Data Set)"
P == INSTANCE Presto WITH NHead <- 12, TelAt <- 2, BreaksAt <- 12, HeadOK <- HeadOKD, Truth <- TruthD, IsPair <- IsPairD,
                          BlockLen <- BlockLenD, BlockOK <- BlockOKD, Fake <- [s |-> FakeName, f |-> <<>>]
Lines(e) == [i \in 1..Len(e.lines) |-> IF Standard(e.lines[i].x) THEN [std |-> TRUE, v |-> [s |-> ValueText(e.lines[i].x), f |-> e.lines[i].f]]
                                       ELSE [std |-> FALSE, v |-> [s |-> "", f |-> <<>>]]]
\* ---- what was read
Got(e, name) == SelectSeq(e.got, LAMBDA g : g.k = name)
Is(e, fld, v) == LET g == Got(e, fld.k) IN Len(g) = 1 /\ g[1].t = fld.t /\ g[1][fld.t] = Rep(fld.t, v)
PairsOf(p) == [i \in 1..Len(p.pairs) |-> LET q == Split(p.pairs[i].s) IN <<ToInt(q[1]), ToInt(q[2])>>]
FieldsRight(e, ls, p) ==
    LET b == Block(ls[p.band].v) IN
    /\ \A i \in 1..12 : Is(e, HeadField[i], ls[i].v)
    /\ \A i \in 1..Len(b) : Is(e, b[i], ls[p.band + i].v)
    /\ Is(e, [k |-> "em_band", t |-> "str"], ls[p.band].v)
    /\ e.pairs = PairsOf(p)
Negative(v) == v.f[8] >= 128 /\ v.f # <<0, 0, 0, 0, 0, 0, 0, 128>>
Zero(v) == v.f \in {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 128>>}
\* the values make sense for an observation (only checked once the metadata are made)
Sensible(ls, p) ==
    /\ ~Negative(ls[8].v)
    /\ ~Negative(ls[11].v) /\ ~Zero(ls[11].v) /\ ToInt(ls[10].v.s) > 0
    /\ ls[p.band].v.s = "Radio" => ~Negative(ls[p.band + 2].v)
Whole == 864000000
CoordRight(e) ==
    LET ra == (e.ra[1] * (((e.ra[2] * 60 + e.ra[3]) * 600000) + e.ra[4])) % Whole
        dec == e.dec[1] * (((e.dec[2] * 60 + e.dec[3]) * 60000) + e.dec[4] \div 10)
        d == (e.gra - ra) % Whole IN
    /\ d <= 1 \/ d >= Whole - 1
    /\ e.gdec - dec \in {-1, 0, 1}
Read(e) ==
    LET ls == Lines(e)  p == P!Parse(ls) IN
    IF p.ph = "refused" THEN
        IF e.out = "ok" THEN "must be refused: " \o p.why
        ELSE IF p.why # "short" /\ ~e.value THEN "refused with another error than ValueError: " \o e.out \o " " \o p.why
        ELSE "ok"
    ELSE IF ~e.coords THEN "ok"                                      \* unreadable coordinates: not settled
    ELSE IF e.kind # "inf" /\ ~Sensible(ls, p) THEN IF e.out = "ok" THEN "impossible values accepted" ELSE "ok"
    ELSE IF e.kind = "ts" /\ ~e.havedat THEN IF e.out = "ok" THEN "no data file" ELSE "ok"
    ELSE IF e.out # "ok" THEN "refused: " \o e.out
    ELSE IF ~FieldsRight(e, ls, p) THEN "field"
    ELSE IF ~CoordRight(e) THEN "coordinates"
    ELSE IF e.fname # e.path THEN "file name"
    ELSE IF e.kind = "inf" THEN "ok"
    ELSE LET ns == IF e.kind = "ts" THEN Len(e.dat) \div 4 ELSE ToInt(ls[10].v.s) IN
    IF e.tobs # 1000 * ns THEN "tobs"
    ELSE IF e.kind = "meta" THEN "ok"
    ELSE IF e.tsamp # ls[11].v.f THEN "tsamp"
    ELSE IF e.dtype # "float32" \/ e.raw # SubSeq(e.dat, 1, 4 * ns) THEN "data"
    ELSE IF (ls[p.band].v.s = "Radio") # (e.warned = 0) THEN "warning"
    ELSE "ok"
Verdict(e) == CASE e.e = "inf" -> Read(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
