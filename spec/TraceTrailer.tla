---------------------------- MODULE TraceTrailer ----------------------------
(* Judges recorded calls of the real TrailerType and of WithTrailer.        *)
EXTENDS TrailerText, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
vars == <<t, i, bad>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ bad = {}
Named(s) == \E u \in Types : s \in TextsOf(u)
Diff(e) ==
  IF e.panic # "" THEN {"panic"} ELSE
  CASE e.op \in {"string", "text", "toml", "json"} ->          \* conversions from text: value v, error or not
         LET x == FromText(e.in) IN
         IF x = None THEN (IF e.err THEN {} ELSE {"accepted"}) \cup (IF e.v \in Types THEN {"yields"} ELSE {})
         ELSE IF ~e.err /\ e.v = x[1] THEN {} ELSE {"rejected"}
    [] e.op = "value" -> IF e.t \in Types THEN (IF ~e.err /\ e.n = Byte(e.t) THEN {} ELSE {"byte"})
                         ELSE IF e.err /\ e.n \notin {10, 0} THEN {} ELSE {"unknown"}
    [] e.op = "marshal" -> IF e.t \in Types THEN (IF ~e.err /\ FromText(e.out) = Some(e.t) THEN {} ELSE {"marshal"})
                           ELSE IF e.err THEN {} ELSE {"unknown"}
    [] e.op = "name" -> IF e.t \in Types THEN (IF FromText(e.out) = Some(e.t) THEN {} ELSE {"name"})
                        ELSE IF FromText(e.out) = None THEN {} ELSE {"unknown"}
    [] e.op = "with" -> IF e.n = Byte(After(Default, e.ts, 1)) THEN {} ELSE {"trailer"}
Step == /\ i # 0 /\ i <= Len(Traces[t].evs) /\ i' = i + 1 /\ UNCHANGED t
        /\ bad' = bad \cup {<<"C25", c>> : c \in Diff(Traces[t].evs[i])}
End  == i = Len(Traces[t].evs) + 1 /\ i' = 0 /\ UNCHANGED <<t, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
