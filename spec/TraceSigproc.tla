----------------------------- MODULE TraceSigproc -----------------------------
(* Conformance of the SIGPROC reader (C21).  The bytes of each file are decoded here. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* ---- text
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
Digit == "0123456789"
CodeOf == [c \in {SubSeq(Upper, i, i) : i \in 1..26} |-> 64 + CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c]
       @@ [c \in {SubSeq(Lower, i, i) : i \in 1..26} |-> 96 + CHOOSE i \in 1..26 : SubSeq(Lower, i, i) = c]
       @@ [c \in {SubSeq(Digit, i, i) : i \in 1..10} |-> 47 + CHOOSE i \in 1..10 : SubSeq(Digit, i, i) = c]
       @@ ("_" :> 95)
Codes(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
SP == INSTANCE Sigproc WITH IntSize <- 4, FloatSize <- 8, StartFlag <- Codes("HEADER_START"), EndFlag <- Codes("HEADER_END"), MaxLen <- 100000000
\* ---- the keys of the format
Ints == {"telescope_id", "machine_id", "data_type", "barycentric", "pulsarcentric", "nbits", "nsamples", "nchans", "nifs", "nbeams",
         "ibeam", "hdrlen", "orig_hdrlen", "new_hdrlen", "sampsize"}
Floats == {"az_start", "za_start", "src_raj", "src_dej", "tstart", "tsamp", "fch1", "foff", "fchannel", "refdm", "flux", "period", "pb",
           "ecc", "asini", "bandwidth", "fbottom", "ftop", "accel"}
Strs == {"filename", "telescope", "rawdatafile", "source_name", "obs_date", "obs_time"}
Bools == {"signed"}
Standard == [k \in {Codes(x) : x \in Ints} |-> "int"] @@ [k \in {Codes(x) : x \in Floats} |-> "float"]
         @@ [k \in {Codes(x) : x \in Strs} |-> "str"] @@ [k \in {Codes(x) : x \in Bools} |-> "bool"]
\* a declared key adds to the standard ones, or overrides its type
RECURSIVE WithExtra(_, _)
WithExtra(kt, ex) == IF ex = <<>> THEN kt ELSE WithExtra((Codes(ex[1].k) :> ex[1].t) @@ kt, Tail(ex))
\* ---- the content of a file
K(x) == Codes(x)
Has(attrs, x) == K(x) \in SP!KeysOf(attrs)
Raw(attrs, x) == SP!Last(attrs, K(x)).v
TypeOf(attrs, x) == SP!Last(attrs, K(x)).t
IntAt(attrs, x) == SP!IntOf(Raw(attrs, x))
Negative(v) == v[8] >= 128 /\ v # <<0, 0, 0, 0, 0, 0, 0, 128>>
Enormous(v) == v[8] % 128 = 127                                   \* beyond 1e270, infinite, or not a number
Zero(v) == v \in {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 128>>}
\* "yes": must be read, "no": must be refused, "may": not settled
Intended(x) == IF x \in Ints THEN "int" ELSE IF x \in Floats THEN "float" ELSE IF x \in Strs THEN "str" ELSE "bool"
Used == {"nchans", "nbits", "signed", "tsamp", "src_raj", "src_dej", "tstart", "refdm", "source_name"}
Decision(e, p, nbytes) ==
    LET a == p.attrs IN
    IF p.ph = "refused" THEN "no"
    ELSE IF \E x \in Used : Has(a, x) /\ TypeOf(a, x) # Intended(x) THEN "may"     \* a key the reader needs, declared to be of another type
    ELSE IF ~Has(a, "nchans") \/ ~Has(a, "nbits") \/ ~Has(a, "tsamp") THEN "no"
    ELSE IF IntAt(a, "nchans") > 1 THEN "no"
    ELSE IF IntAt(a, "nbits") \notin {8, 32} THEN "no"
    ELSE IF IntAt(a, "nbits") = 8 /\ ~Has(a, "signed") THEN "no"
    ELSE IF IntAt(a, "nchans") < 1 THEN "may"
    ELSE IF \E x \in {"tsamp", "refdm", "tstart"} : Has(a, x) /\ Enormous(Raw(a, x)) THEN "may"
    ELSE IF Negative(Raw(a, "tsamp")) \/ Zero(Raw(a, "tsamp")) \/ nbytes < IntAt(a, "nbits") \div 8 THEN "no"   \* length of observation not positive
    ELSE IF Has(a, "refdm") /\ Negative(Raw(a, "refdm")) THEN "no"
    ELSE IF Has(a, "tstart") /\ Negative(Raw(a, "tstart")) THEN "no"
    ELSE IF \E i \in 1..Len(a) : a[i].t = "str" /\ \E j \in 1..Len(a[i].v) : a[i].v[j] >= 128 THEN "may"   \* text that is not ASCII
    ELSE IF ~Has(a, "src_raj") \/ ~Has(a, "src_dej") THEN "may"
    ELSE IF Raw(a, "src_raj") # e.raw_ra \/ Raw(a, "src_dej") # e.raw_dec THEN "may"      \* coordinates corrupted, perhaps impossible
    ELSE "yes"
\* ---- values read
Got(e, name) == SelectSeq(e.got, LAMBDA g : g.k = name)
Is(e, name, t, v) == LET g == Got(e, name) IN Len(g) = 1 /\ g[1].t = t /\ g[1].v = v
IsNone(e, name) == LET g == Got(e, name) IN Len(g) = 1 /\ g[1].t = "none"
AttrRead(e, at) ==
    \E i \in 1..Len(e.got) : /\ Codes(e.got[i].k) = at.k
                             /\ e.got[i].t = at.t
                             /\ e.got[i].v = IF at.t = "int" THEN <<SP!IntOf(at.v)>> ELSE IF at.t = "bool" THEN <<IF at.v[1] = 0 THEN 0 ELSE 1>> ELSE at.v
FromHeader(e, a, name, key) == IF Has(a, key) THEN Is(e, name, TypeOf(a, key), Raw(a, key)) ELSE IsNone(e, name)
Size(c) == ((c[2] * 60 + c[3]) * 600000) + c[4]                  \* hours, minutes, 1e-4 seconds.  Declinations: in 1e-3 arc seconds
Whole == 864000000
CoordRight(e) ==
    LET ra == ((e.ra[1] * Size(e.ra)) % Whole)  dec == e.dec[1] * (((e.dec[2] * 60 + e.dec[3]) * 60000) + e.dec[4] \div 10)
        d == (e.gra - ra) % Whole IN
    /\ d <= 1 \/ d >= Whole - 1
    /\ e.gdec - dec \in {-1, 0, 1}
Nsamp(a, nbytes) == nbytes \div (IntAt(a, "nbits") \div 8)
DataRight(e, a, file, pos) ==
    LET n == Nsamp(a, Len(file) - pos) IN
    /\ e.dtype = "float32"
    /\ e.n = n
    /\ IF IntAt(a, "nbits") = 32 THEN e.raw = SubSeq(file, pos + 1, pos + 4 * n)
       ELSE LET sg == Raw(a, "signed")[1] # 0 IN
            e.vals = [i \in 1..n |-> IF sg THEN SP!SignedByte(file[pos + i]) ELSE file[pos + i]]
Read(e) ==
    LET p == SP!Parse(e.file, WithExtra(Standard, e.extra))
        dec == Decision(e, p, Len(e.file) - p.pos) IN
    IF dec = "may" /\ e.out # "ok" THEN "ok"
    ELSE IF dec = "no" THEN IF e.out = "ok" THEN "must be refused: " \o p.why ELSE "ok"
    ELSE IF e.out # "ok" THEN "refused: " \o e.out
    ELSE IF dec = "may" THEN "ok"
    ELSE LET a == p.attrs IN
    IF \E k \in SP!KeysOf(a) : ~AttrRead(e, SP!Last(a, k)) THEN "header value"
    ELSE IF ~FromHeader(e, a, "dm", "refdm") THEN "dm"
    ELSE IF ~FromHeader(e, a, "mjd", "tstart") THEN "mjd"
    ELSE IF ~FromHeader(e, a, "source_name", "source_name") THEN "source name"
    ELSE IF e.raw_ra = Raw(a, "src_raj") /\ e.raw_dec = Raw(a, "src_dej") /\ ~CoordRight(e) THEN "coordinates"
    ELSE IF e.tobs # 1000 * Nsamp(a, Len(e.file) - p.pos) THEN "tobs"
    ELSE IF e.fname # e.path THEN "file name"
    ELSE IF e.kind = "meta" THEN "ok"
    ELSE IF e.tsamp # Raw(a, "tsamp") THEN "tsamp"
    ELSE IF ~DataRight(e, a, e.file, p.pos) THEN "data"
    ELSE "ok"
Verdict(e) == CASE e.e = "sig" -> Read(e) [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
===============================================================================
