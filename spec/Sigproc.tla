------------------------------- MODULE Sigproc --------------------------------
(* SIGPROC dedispersed time series files (C21).
   A file is a sequence of bytes: the string HEADER_START, then (key, value) attributes, then the string HEADER_END, then the data.
   A string is its length (an int) followed by its bytes; an int has IntSize bytes, least significant first, two's complement;
   a float has FloatSize bytes; a bool has one byte.  The type of the value is given by the key. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS IntSize, FloatSize, StartFlag, EndFlag, MaxLen
\* ---- the byte level
Power256(n) == CASE n = 0 -> 1 [] n = 1 -> 256 [] n = 2 -> 65536 [] n = 3 -> 16777216
SignedByte(b) == IF b < 128 THEN b ELSE b - 256
RECURSIVE IntFrom(_, _)
IntFrom(bytes, i) ==
    IF i = Len(bytes) THEN SignedByte(bytes[i]) * Power256(i - 1) ELSE bytes[i] * Power256(i - 1) + IntFrom(bytes, i + 1)
IntOf(bytes) == IntFrom(bytes, 1)
Bytes(f, pos, n) == SubSeq(f, pos + 1, pos + n)                  \* n bytes from offset pos (which starts at 0)
HasBytes(f, pos, n) == n >= 0 /\ n <= MaxLen /\ pos + n <= Len(f)
\* reading a string at offset pos: [ok, v, pos of what follows]
Str(f, pos) ==
    IF ~HasBytes(f, pos, IntSize) THEN [ok |-> FALSE]
    ELSE LET n == IntOf(Bytes(f, pos, IntSize)) IN
         IF ~HasBytes(f, pos + IntSize, n) THEN [ok |-> FALSE]
         ELSE [ok |-> TRUE, v |-> Bytes(f, pos + IntSize, n), pos |-> pos + IntSize + n]
RawSize(type) == CASE type = "int" -> IntSize [] type = "float" -> FloatSize [] type = "bool" -> 1
\* ---- the header parser, one step.  kt: key -> type.  s: [ph, pos, key, attrs, why]
Begin == [ph |-> "start", pos |-> 0, key |-> <<>>, attrs |-> <<>>, why |-> "none"]
Refuse(s, why) == [s EXCEPT !.ph = "refused", !.why = why]
Step(f, kt, s) ==
    CASE s.ph = "start" ->
            LET r == Str(f, s.pos) IN
            IF ~r.ok THEN Refuse(s, "truncated") ELSE IF r.v # StartFlag THEN Refuse(s, "not a SIGPROC file")
            ELSE [s EXCEPT !.ph = "key", !.pos = r.pos]
      [] s.ph = "key" ->
            LET r == Str(f, s.pos) IN
            IF ~r.ok THEN Refuse(s, "truncated")
            ELSE IF r.v = EndFlag THEN [s EXCEPT !.ph = "done", !.pos = r.pos]
            ELSE IF r.v \notin DOMAIN kt THEN Refuse(s, "unknown key")
            ELSE [s EXCEPT !.ph = "value", !.pos = r.pos, !.key = r.v]
      [] s.ph = "value" ->
            LET t == kt[s.key] IN
            IF t = "str"
            THEN LET r == Str(f, s.pos) IN
                 IF ~r.ok THEN Refuse(s, "truncated")
                 ELSE [s EXCEPT !.ph = "key", !.pos = r.pos, !.attrs = Append(@, [k |-> s.key, t |-> t, v |-> r.v])]
            ELSE IF ~HasBytes(f, s.pos, RawSize(t)) THEN Refuse(s, "truncated")
            ELSE [s EXCEPT !.ph = "key", !.pos = @ + RawSize(t), !.attrs = Append(@, [k |-> s.key, t |-> t, v |-> Bytes(f, s.pos, RawSize(t))])]
Halted(s) == s.ph \in {"done", "refused"}
RECURSIVE Run(_, _, _)
Run(f, kt, s) == IF Halted(s) THEN s ELSE Run(f, kt, TLCEval(Step(f, kt, s)))
Parse(f, kt) == Run(f, kt, Begin)
\* ---- what a parsed header says
KeysOf(attrs) == {attrs[i].k : i \in 1..Len(attrs)}
Last(attrs, k) == attrs[CHOOSE i \in 1..Len(attrs) : attrs[i].k = k /\ \A j \in (i + 1)..Len(attrs) : attrs[j].k # k]
===============================================================================
