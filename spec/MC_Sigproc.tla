------------------------------ MODULE MC_Sigproc ------------------------------
(* The parser against the writer: every sequence of bytes up to a length, and every header of a few attributes. *)
EXTENDS Sigproc
CONSTANTS FILEMAX, ITEMMAX
VARIABLES file, src, s
vars == <<file, src, s>>
Alphabet == 0..3
Start == <<2>>
End == <<3>>
Types == (<<0>> :> "int") @@ (<<1>> :> "bool") @@ (<<0, 0>> :> "str") @@ (<<0, 1>> :> "float")
WriteStr(v) == <<Len(v)>> \o v
RECURSIVE WriteItems(_)
WriteItems(it) == IF it = <<>> THEN WriteStr(EndFlag)
                  ELSE WriteStr(it[1].k) \o (IF it[1].t = "str" THEN WriteStr(it[1].v) ELSE it[1].v) \o WriteItems(Tail(it))
Write(it) == WriteStr(StartFlag) \o WriteItems(it)
Values(t) == CASE t = "int" -> {<<b>> : b \in Alphabet} [] t = "bool" -> {<<0>>, <<1>>} [] t = "str" -> {<<>>, <<3>>, <<3, 1>>}
             [] t = "float" -> {<<0, 3>>, <<1, 3>>, <<3, 1>>}
Items == UNION {{[k |-> k, t |-> Types[k], v |-> v] : v \in Values(Types[k])} : k \in DOMAIN Types}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Init ==
    /\ s = Begin
    /\ \/ src = [raw |-> TRUE, items |-> <<>>] /\ file \in Seqs(Alphabet, FILEMAX)
       \/ \E it \in Seqs(Items, ITEMMAX) : \E d \in {<<>>, <<1, 3, 3>>} :
            src = [raw |-> FALSE, items |-> it] /\ file = Write(it) \o d
Next == ~Halted(s) /\ s' = Step(file, Types, s) /\ UNCHANGED <<file, src>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Raw == src.raw
\* what is accepted is what the writer writes, and the data start where it stops
Sound == s.ph = "done" => LET w == Write(s.attrs) IN Len(w) = s.pos /\ SubSeq(file, 1, s.pos) = w
Complete == ~Raw => s.ph # "refused" /\ (s.ph = "done" => s.attrs = src.items)
LastWins == s.ph = "done" => \A k \in KeysOf(s.attrs) : Last(s.attrs, k).k = k
Terminates == <>Halted(s)
===============================================================================
