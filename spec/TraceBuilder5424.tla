-------------------------- MODULE TraceBuilder5424 ---------------------------
(* Judges recorded histories of builder calls.  A trace starts with a blank *)
(* message or a parsed one and has one step per call: the call, the message *)
(* afterwards, the result of String() and of parsing that text again.       *)
EXTENDS Builder5424, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* i: next step; m: message recorded after the previous one; bad: clauses
VARIABLES t, i, m, bad
vars == <<t, i, m, bad>>

\* recorded message -> message of the specification
RecTs(x) == IF x = <<>> THEN None
            ELSE LET r == x[1] IN
                 Some([y |-> r.y, mo |-> r.mo, d |-> r.d, h |-> r.h, mi |-> r.mi, s |-> r.s,
                       us |-> IF r.ns % 1000 = 0 THEN r.ns \div 1000 ELSE 0 - 1,
                       off |-> IF r.off % 60 = 0 THEN r.off \div 60 ELSE 0 - 100000])
RecSd(x) == IF x = <<>> THEN None
            ELSE Some([id \in {x[1][k].id : k \in DOMAIN x[1]} |->
                   LET ps == x[1][CHOOSE k \in DOMAIN x[1] : x[1][k].id = id].ps IN
                   [n \in {ps[j].n : j \in DOMAIN ps} |-> ps[CHOOSE j \in DOMAIN ps : ps[j].n = n].v]])
Rec(r) == [pri |-> IF r.pri < 0 THEN None ELSE Some(r.pri), ver |-> r.ver, ts |-> RecTs(r.ts), host |-> r.host, app |-> r.app,
           proc |-> r.proc, msgid |-> r.msgid, sd |-> RecSd(r.sd), msg |-> r.msg]
Diff(p, q) == {f \in DOMAIN p : p[f] # q[f]}
FacSevOk(r) == IF r.pri < 0 THEN r.fac < 0 /\ r.sev < 0 ELSE r.fac = r.pri \div 8 /\ r.sev = r.pri % 8

Tag(p, xs) == {<<p, x>> : x \in xs}

\* String(): s = <<>> for an error, else <<bytes>>; re: the text parsed strictly
JudgeString(x, r, stp) ==
  IF ~IsValid(x) THEN (IF stp.str = <<>> THEN {} ELSE {"serialised-invalid"})
  ELSE IF stp.str = <<>> THEN {"string-error"}
  ELSE LET rd == Reading(stp.str[1]) IN
       (IF rd = None THEN {"text-not-accepted"} ELSE {"text-" \o f : f \in Diff(rd[1], x)})
       \cup (IF stp.re = <<>> THEN {"reparse-rejected"} ELSE {"reparse-" \o f : f \in Diff(Rec(stp.re[1]), x)})
       \cup (IF stp.stable THEN {} ELSE {"unstable"})
       \cup (IF stp.alt = <<>> \/ stp.alt = stp.str THEN {} ELSE {"order"})

Start(tr) == IF tr.init = <<>> THEN Blank
             ELSE LET x == Reading(tr.init[1]) IN IF x = None THEN Blank ELSE x[1]
Init == /\ t \in 1..Len(Traces) /\ i = 1
        /\ m = Start(Traces[t])
        /\ bad = {}
Call == /\ i \in 1..Len(Traces[t].steps)
        /\ LET s  == Traces[t].steps[i]
               x  == IF s.op.op = "none" THEN m ELSE Do(m, s.op)
               r  == Rec(s.post)
               d  == Diff(r, x)
               pr == IF s.op.op = "none" THEN "C13" ELSE IF s.op.op \in SdOps THEN "C15" ELSE "C12"
           IN /\ m' = r
              /\ bad' = bad \cup Tag(pr, d) \cup (IF FacSevOk(s.post) THEN {} ELSE Tag(pr, {"facsev"}))
                            \cup (IF s.panic = "" THEN {} ELSE Tag(pr, {"panic"}))
                            \cup (IF s.post.valid = IsValid(r) THEN {} ELSE Tag("C13", {"valid"}))
                            \cup Tag("C13", JudgeString(r, s.post, s))
        /\ i' = i + 1 /\ UNCHANGED t
End  == i = Len(Traces[t].steps) + 1 /\ i' = 0 /\ UNCHANGED <<t, m, bad>>
Next == Call \/ End
Spec == Init /\ [][Next]_vars

Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
