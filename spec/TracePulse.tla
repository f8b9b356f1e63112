----------------------------- MODULE TracePulse ----------------------------
(* Conformance of time series made from arrays, raw files and the generator (C27) *)
EXTENDS Pulse, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* values in units 1 / e.den, sampling time in units 2^-20 s
Made(e) ==
    IF e.out # "ok" THEN "refused: " \o e.out
    ELSE IF e.got # e.vals THEN "not the given values, in order"
    ELSE IF ~e.f32 THEN "not float32"
    ELSE IF e.nsamp # Len(e.vals) THEN "number of samples"
    ELSE IF e.gottsamp # e.tsamp THEN "sampling time"
    ELSE IF e.length # e.tsamp * Len(e.vals) \/ e.tobs # e.length THEN "length"
    ELSE IF e.copy /\ e.shared THEN "shares memory with the array it was copied from"
    ELSE IF ~e.pure THEN "input modified"
    ELSE "ok"

\* number of samples: e.len / e.ts to the nearest
Samples(e) == (2 * e.len + e.ts) \div (2 * e.ts)
\* e.lg[i + 1] = log2(maximum / sample e.first + i), in units 1 / e.one
Train(e) ==
    IF e.out # "ok" THEN "refused: " \o e.out
    ELSE IF e.n # Samples(e) THEN "number of samples"
    ELSE IF ~e.attrs THEN "attributes"
    ELSE IF e.neg THEN "negative sample"
    ELSE IF Abs(e.norm - 1000000) > 5 THEN "root of the sum of squares is not the amplitude"
    ELSE IF ~e.repeat THEN "another noiseless signal from the same parameters"
    ELSE LET first == TLCEval([d \in 0..Half(e.a) |-> CHOOSE i \in 0..(e.a - 1) : Dist(e.a, Place(e.a, e.b, e.j0, e.first + i)) = d])
             T == TLCEval([d \in 1..(Half(e.a) + 1) |-> e.lg[first[d - 1] + 1]])
         IN  IF \E i \in 0..(Len(e.lg) - 1) : Abs(e.lg[i + 1] - T[Dist(e.a, Place(e.a, e.b, e.j0, e.first + i)) + 1]) > 2 /\ e.lg[i + 1] < e.cap
             THEN "not symmetric about the pulses, or not periodic"
             ELSE IF Abs(T[1]) > 2 THEN "no maximum at the initial phase"
             ELSE IF ~Decreasing(T, e.a, e.cap) THEN "not decreasing away from the pulse"
             ELSE IF ~HalfMax(T, e.a, e.hn, e.hd, e.one, 3) THEN "width at half maximum"
             ELSE IF ~Shape(T, e.a, e.hn, e.hd, e.one, e.cap, 3) THEN "not a von Mises pulse"
             ELSE "ok"

\* statistics of the noise in units of their own standard deviation, times 100
Noise(e) ==
    IF e.out # "ok" THEN "refused: " \o e.out
    ELSE IF \E s \in 1..Len(e.z) : Abs(e.z[s]) > 700 THEN "noise is not white, Gaussian and of the given standard deviation"
    ELSE IF ~e.fresh THEN "the same noise in two series"
    ELSE "ok"

Verdict(e) ==
    CASE e.e = "made" -> Made(e)
      [] e.e = "train" -> Train(e)
      [] e.e = "noise" -> Noise(e)
      [] OTHER -> e.e
Init == l = 1
Next ==
    \/ /\ l <= Len(Trace)
       /\ LET v == Verdict(Trace[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
       /\ l' = l + 1
    \/ l = Len(Trace) + 1 /\ PrintT("DONE") /\ l' = l + 1
=============================================================================
