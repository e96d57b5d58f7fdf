--------------------------- MODULE TraceAccessors ---------------------------
(* Judges recorded histories of real messages: every operation comes with   *)
(* what the message looked like afterwards (q).                             *)
EXTENDS Accessors, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, m, bad
vars == <<t, i, m, bad>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ m = New("base") /\ bad = {}
\* an answer is <<>> (nil) or <<text>>
Right(a, s) == a # None /\ a[1] \in s
Diff(x, q) ==
  (IF q.valid = Valid(x) THEN {} ELSE {"valid"}) \cup
  (IF q.panic = "" THEN {} ELSE {"panic"}) \cup
  (IF q.pri = x.pri \/ (HasPri(x) /\ ~Standard(x)) THEN {} ELSE {"priority"}) \cup
  (IF q.fac = x.fac \/ (x.fac # None /\ ~StdFac(x)) THEN {} ELSE {"facility"}) \cup
  (IF q.sev = x.sev \/ (x.sev # None /\ ~StdSev(x)) THEN {} ELSE {"severity"}) \cup
  (IF x.fac = None THEN (IF q.fm = None THEN {} ELSE {"FacilityMessage"}) \cup (IF q.fl = None THEN {} ELSE {"FacilityLevel"})
   ELSE IF ~StdFac(x) THEN {}
   ELSE (IF Right(q.fm, FacAnswers(x).fm) THEN {} ELSE {"FacilityMessage"}) \cup (IF Right(q.fl, FacAnswers(x).fl) THEN {} ELSE {"FacilityLevel"})) \cup
  (IF x.sev = None THEN (IF q.sm = None /\ q.sl = None /\ q.ss = None THEN {} ELSE {"Severity"})
   ELSE IF ~StdSev(x) THEN {}
   ELSE (IF Right(q.sm, SevAnswers(x).sm) THEN {} ELSE {"SeverityMessage"}) \cup (IF Right(q.sl, SevAnswers(x).sl) THEN {} ELSE {"SeverityLevel"})
        \cup (IF Right(q.ss, SevAnswers(x).ss) THEN {} ELSE {"SeverityShortLevel"}))
Step == /\ i # 0 /\ i <= Len(Traces[t].evs) /\ i' = i + 1 /\ UNCHANGED t
        /\ LET e == Traces[t].evs[i]
               x == Do(m, e)
           IN m' = x /\ bad' = bad \cup {<<"C24", c>> : c \in Diff(x, e.q)}
End  == i = Len(Traces[t].evs) + 1 /\ i' = 0 /\ UNCHANGED <<t, m, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
