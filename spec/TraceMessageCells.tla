-------------------------- MODULE TraceMessageCells --------------------------
(* Judges recorded histories of Go programs on messages: what every message *)
(* and every held pointer shows after each step, and for the steps that      *)
(* serialise, the text and what parsing it gives.                            *)
EXTENDS MessageCells, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, w, bad
vars == <<t, i, w, bad>>

\* recorded values -> values of the specification
DecTs(r) == [y |-> r.y, mo |-> r.mo, d |-> r.d, h |-> r.h, mi |-> r.mi, s |-> r.s, us |-> r.ns \div 1000, nano |-> r.ns % 1000,
             off |-> IF r.off % 60 = 0 THEN r.off \div 60 ELSE 0 - 100000]
DecSd(x) == [id \in {x[k].id : k \in DOMAIN x} |->
               LET ps == x[CHOOSE k \in DOMAIN x : x[k].id = id].ps IN
               [nm \in {ps[j].n : j \in DOMAIN ps} |-> ps[CHOOSE j \in DOMAIN ps : ps[j].n = nm].v]]
Dec(kind, v) == CASE kind = "ts" -> DecTs(v) [] kind = "sd" -> DecSd(v) [] OTHER -> v
DecOpt(kind, x) == IF x = <<>> THEN None ELSE Some(Dec(kind, x[1]))
RecView(r) == [f \in PtrFields |-> DecOpt(KindOf(f), r[f])] @@ ("ver" :> r.ver)
RecHeld(x) == IF x = <<>> THEN <<>> ELSE <<x[1], Dec(x[1], x[2])>>
OpOf(o) == IF o.do \in {"give", "write"} THEN [o EXCEPT !.v = Dec(o.kind, o.v)] ELSE o

ShowHeld(x, k) == IF x.held[k] = <<>> THEN <<>> ELSE <<x.held[k][1], x.cells[x.held[k][2]]>>
\* what a text parsed to, as a view
JudgeString(v, s) ==
  IF ~ViewValid(v) THEN (IF s.str = <<>> THEN {} ELSE {"serialised-invalid"})
  ELSE IF s.str = <<>> THEN {"string-error"}
  ELSE IF ~Expressible(v) THEN {}
  ELSE LET rd == Reading(s.str[1])
           ok == Plain(v)
       IN (IF rd = None THEN {"text-not-accepted"} ELSE {"text-" \o f : f \in {f \in DOMAIN ok : rd[1][f] # ok[f]}})
          \cup (IF s.re = <<>> THEN {"reparse-rejected"}
                ELSE LET q == AsBuilt(RecView(s.re[1])) IN {"reparse-" \o f : f \in {f \in DOMAIN ok : q[f] # ok[f]}})

Init == t \in 1..Len(Traces) /\ i = 1 /\ w = World(Traces[t].nm, Traces[t].nh) /\ bad = {}
Step1 == /\ i \in 1..Len(Traces[t].steps)
         /\ LET s == Traces[t].steps[i]
                x == Act(w, OpOf(s.op))
            IN /\ w' = x
               /\ bad' = bad
                    \cup (IF s.panic = "" THEN {} ELSE {"panic"})
                    \cup (IF s.panic # "" THEN {} ELSE
                          UNION {LET v == View(x, j) r == RecView(s.msgs[j]) IN
                                 {(IF s.op.do = "set" /\ s.op.m = j THEN "set-" ELSE "other-") \o f : f \in {f \in DOMAIN v : v[f] # r[f]}}
                                 : j \in DOMAIN s.msgs}
                          \cup (IF \A j \in DOMAIN s.msgs : s.msgs[j].valid = ViewValid(View(x, j)) THEN {} ELSE {"valid"})
                          \cup (IF \A k \in DOMAIN s.held : RecHeld(s.held[k]) = ShowHeld(x, k) THEN {} ELSE {"held"})
                          \cup (IF s.ser = 0 THEN {} ELSE JudgeString(View(x, s.ser), s)))
         /\ i' = i + 1 /\ UNCHANGED t
End == i = Len(Traces[t].steps) + 1 /\ i' = 0 /\ UNCHANGED <<t, w, bad>>
Next == Step1 \/ End
Spec == Init /\ [][Next]_vars

Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson({<<"C32", c>> : c \in bad}))
=============================================================================
