----------------------------- MODULE Trace5424 ------------------------------
(* Judges recorded calls of the real RFC 5424 parsers.  Every trace is one  *)
(* input with what Parse returned in four configurations: machine/parser x  *)
(* strict/best effort.  The specification consumes the input (Chunk bytes   *)
(* per step) and, at its end, compares Outcome with what was recorded.      *)
(* The verdict is the set of property clauses that do not hold.             *)
EXTENDS Compare5424, Json, IOUtils

CONSTANT Chunk

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, st
vars == <<t, i, st>>

In1 == Traces[t].in
Cmp == Traces[t].cmp

RECURSIVE Consume(_, _, _)
Consume(s, k, n) == IF n = 0 \/ k > Len(In1) \/ IsFail(s.ctl) THEN <<s, k>>
                    ELSE Consume(Step(s, In1[k], Cmp), k + 1, n - 1)

Done == i = 0
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = InitState
Read == /\ ~Done /\ i <= Len(In1) /\ ~IsFail(st.ctl)
        /\ LET x == Consume(st, i, Chunk) IN st' = x[1] /\ i' = x[2]
        /\ UNCHANGED t
End  == /\ ~Done /\ (i > Len(In1) \/ IsFail(st.ctl))
        /\ st' = Finish(st) /\ i' = 0 /\ UNCHANGED t
Next == Read \/ End
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ judgement
Tag(p, xs) == {<<p, x>> : x \in xs}

Judge(tr, f) ==
  LET acc    == IsOk(f.ctl)
      strict == {tr.ms, tr.ps}
      be     == {tr.mb, tr.pb}
      all    == strict \cup be
      so     == Outcome(f, FALSE)
      bo     == Outcome(f, TRUE)
      inmsg  == acc /\ f.regs.msg # <<>>
      P1 == UNION {(IF (r.err = <<>>) = acc THEN {} ELSE {"accept"}) \cup
                   (IF (r.msg # <<>>) = acc THEN {} ELSE {"message"}) : r \in strict}
      hung(r) == r.panic = "did not return"
      P2 == IF acc THEN UNION {IF hung(r) THEN {"hung"} ELSE IF r.msg = <<>> THEN {} ELSE FieldDiff(r.msg[1], so.msg[1]) : r \in strict} ELSE {}
      P3 == IF acc THEN {} ELSE
            UNION {IF (~hung(r) /\ r.err = <<>>) \/ ErrSame(r.err, so.err) THEN {} ELSE {"error"} : r \in all}
      P4 == UNION {MsgDiff(r.msg, bo.msg) \cup (IF (r.err = <<>>) = acc THEN {} ELSE {"error"}) : r \in be}
      P5 == (IF Cmp THEN UNION {MsgDiff(r.msg, so.msg) \cup (IF ErrSame(r.err, so.err) THEN {} ELSE {"error"}) : r \in strict}
                    \cup UNION {MsgDiff(r.msg, bo.msg) \cup (IF ErrSame(r.err, bo.err) THEN {} ELSE {"error"}) : r \in be}
             ELSE IF inmsg THEN UNION {IF r.err # <<>> THEN {"accept"} ELSE IF r.msg = <<>> THEN {"message"}
                                       ELSE FieldDiff(r.msg[1], so.msg[1]) \cap {"msg"} : r \in all}
             ELSE {})
      P9 == UNION {(IF r.panic = "" THEN {} ELSE {"panic"}) \cup
                   (IF r.msg = <<>> /\ r.err = <<>> THEN {"silent"} ELSE {}) \cup
                   (IF r.msg = <<>> THEN {} ELSE
                      LET m == r.msg[1] IN
                      (IF m.valid THEN {} ELSE {"valid"}) \cup
                      (IF m.pri \in 0..191 /\ m.fac = m.pri \div 8 /\ m.sev = m.pri % 8 THEN {} ELSE {"facsev"})) : r \in all}
            \cup UNION {IF r.msg # <<>> /\ r.err # <<>> THEN {"both"} ELSE {} : r \in strict}
            \cup (IF tr.ms = tr.ps /\ tr.mb = tr.pb THEN {} ELSE {"parser"})
  IN  (IF Cmp THEN {} ELSE Tag("C01", P1)) \cup Tag("C02", P2)
      \cup Tag("C03", P3) \cup Tag("C04", P4) \cup Tag("C05", P5) \cup Tag("C09", P9)

Verdict == ~Done \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(Judge(Traces[t], st)))
=============================================================================
