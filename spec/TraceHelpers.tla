---------------------------- MODULE TraceHelpers ----------------------------
(* Judges recorded calls of the real helpers of package common.             *)
EXTENDS Helpers, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
vars == <<t, i, bad>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ bad = {}
Kept(e) == IF e.same THEN {} ELSE {"argument changed"}
Diff(e) ==
  IF e.panic # "" THEN {"panic"} ELSE
  CASE e.op = "dec"  -> (IF e.out = Canon(e.in) THEN {} ELSE {"number"}) \cup Kept(e)
    [] e.op = "esc"  -> IF e.out = Escape(e.in) THEN {} ELSE {"escaped"}
    [] e.op = "rm"   -> (IF e.out = Without(e.in, e.ps, e.off) THEN {} ELSE {"removed"}) \cup Kept(e)
                        \cup (IF e.apart THEN {} ELSE {"shared"})
    [] e.op = "in"   -> IF e.ok = Within(e.v, e.lo, e.hi) THEN {} ELSE {"range"}
    [] e.op = "prio" -> IF e.valid = <<<<0, 191>>>> THEN {} ELSE {"priority"}      \* the ranges of values that are valid
    [] e.op = "ver"  -> IF e.valid = <<<<1, 999>>>> THEN {} ELSE {"version"}
Step == /\ i # 0 /\ i <= Len(Traces[t].evs) /\ i' = i + 1 /\ UNCHANGED t
        /\ bad' = bad \cup {<<"C30", c>> : c \in Diff(Traces[t].evs[i])}
End  == i = Len(Traces[t].evs) + 1 /\ i' = 0 /\ UNCHANGED <<t, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
