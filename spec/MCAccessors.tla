---------------------------- MODULE MCAccessors -----------------------------
(* Design check of Accessors: all priorities and versions of interest, in   *)
(* every order of operations that reaches them.                             *)
EXTENDS Accessors
VARIABLES m
Versions == {0, 1, 2, 9, 99, 999, 1000, 1001, 65535}
Ops == [op : {"new"}, kind : {"5424", "3164", "base"}] \cup [op : {"compute", "priority"}, p : 0..255]
       \cup [op : {"version", "rawversion"}, v : Versions] \cup [op : {"parsed"}, kind : {"5424"}, p : 0..191, v : Versions \cap (1..999)]
       \cup [op : {"parsed"}, kind : {"3164"}, p : 0..191, v : {0}]
\* assigning fields: only of a message with one of these priorities (keeps the state space small)
Codes == {<<>>, <<0>>, <<7>>, <<13>>, <<24>>}
RawOps == [op : {"rawfac", "rawsev", "rawpri"}, o : Codes]
Init == m = New("5424")
Next == \/ \E o \in Ops : m' = Do(m, o)
        \/ m.pri \in Codes /\ m.ver \in {0, 1} /\ \E o \in RawOps : m' = Do(m, o)
Spec == Init /\ [][Next]_m
TypeOK == m.kind \in {"5424", "3164", "base"} /\ m.ver \in 0..65535 /\ \A o \in {m.pri, m.fac, m.sev} : o # None => o[1] \in 0..255
\* what setting a priority leaves, whatever was there before
Decomposes == \A p \in 0..191 : LET x == WithPri(m, p) IN p = 8 * x.fac[1] + x.sev[1] /\ StdFac(x) /\ StdSev(x)
Named == /\ StdFac(m) => \A f \in {"fm", "fl"} : FacAnswers(m)[f] # {} /\ \A x \in FacAnswers(m)[f] : x # ""
         /\ StdSev(m) => \A f \in {"sm", "sl", "ss"} : SevAnswers(m)[f] # {} /\ \A x \in SevAnswers(m)[f] : x # ""
\* the keywords tell codes apart
Distinct == /\ \A i, j \in 1..24 : i # j => FacilityKeyword[i] \cap FacilityKeyword[j] = {}
            /\ \A i, j \in 1..8 : i # j => SeverityName[i] \cap SeverityName[j] = {} /\ SeverityKeyword[i] \cap SeverityKeyword[j] = {} /\ SeverityShort[i] \cap SeverityShort[j] = {}
            /\ Len(FacilityName) = 24 /\ Len(FacilityKeyword) = 24 /\ Len(SeverityName) = 8 /\ Len(SeverityKeyword) = 8 /\ Len(SeverityShort) = 8
ValidExactly == Valid(m) <=> (HasPri(m) /\ m.pri[1] <= 191 /\ (m.kind # "5424" \/ (m.ver > 0 /\ m.ver < 1000)))
=============================================================================
