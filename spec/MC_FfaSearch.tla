----------------------------- MODULE MC_FfaSearch -----------------------------
(* The top level search as a machine: load, pre-process stage by stage on a copy, generate the widths one by one, search.
   For all small bins_min, duty cycles and spacings. *)
EXTENDS FfaSearch, TLC
CONSTANTS BMAX, DMAX
VARIABLES b0, dn, dd, wn, wd, dered, already, pc, input, work, ws, searched
vars == <<b0, dn, dd, wn, wd, dered, already, pc, input, work, ws, searched>>

Init ==
    /\ b0 \in 1..BMAX /\ dd \in 1..DMAX /\ dn \in 1..dd
    /\ wd \in 1..DMAX /\ wn \in wd..(3 * wd)
    /\ dered \in BOOLEAN /\ already \in BOOLEAN
    /\ pc = "deredden" /\ input = <<"raw">> /\ work = <<"raw">> /\ ws = <<>> /\ searched = <<>>

Deredden == /\ pc = "deredden" /\ work' = (IF dered THEN Append(work, "deredden") ELSE work) /\ pc' = "normalise"
            /\ UNCHANGED <<b0, dn, dd, wn, wd, dered, already, input, ws, searched>>
Normalise == /\ pc = "normalise" /\ work' = (IF already THEN work ELSE Append(work, "normalise")) /\ pc' = "widths"
             /\ UNCHANGED <<b0, dn, dd, wn, wd, dered, already, input, ws, searched>>
Cap == Max2(1, (b0 * dn) \div dd)
W == IF ws = <<>> THEN 1 ELSE Max2(ws[Len(ws)] + 1, (ws[Len(ws)] * wn) \div wd)
AddWidth == /\ pc = "widths" /\ W <= Cap /\ ws' = Append(ws, W)
            /\ UNCHANGED <<b0, dn, dd, wn, wd, dered, already, pc, input, work, searched>>
EndWidths == /\ pc = "widths" /\ W > Cap /\ pc' = "search"
             /\ UNCHANGED <<b0, dn, dd, wn, wd, dered, already, input, work, ws, searched>>
Search == /\ pc = "search" /\ searched' = work /\ pc' = "done"
          /\ UNCHANGED <<b0, dn, dd, wn, wd, dered, already, input, work, ws>>
Next == Deredden \/ Normalise \/ AddWidth \/ EndWidths \/ Search
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prepared == pc = "done" => searched = <<"raw">> \o Stages(dered, already)
InputKept == input = <<"raw">>
Widths == pc \in {"search", "done"} => IsWidths(ws, b0, dn, dd, wn, wd)
\* width trials fit in the smallest profile, and leave no gap larger than the spacing
Sane == pc = "done" =>
    /\ \A i \in 1..Len(ws) : ws[i] \in 1..Max2(1, b0)
    /\ \A i \in 1..(Len(ws) - 1) : ws[i + 1] > ws[i] /\ (ws[i + 1] = ws[i] + 1 \/ ws[i + 1] * wd <= ws[i] * wn)
    /\ \A w \in 1..Cap : \E i \in 1..Len(ws) : ws[i] <= w /\ (ws[i] = w \/ w * wd <= ws[i] * wn)
Terminates == <>(pc = "done")
===============================================================================
