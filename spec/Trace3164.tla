----------------------------- MODULE Trace3164 ------------------------------
(* Judges recorded calls of the real RFC 3164 parsers (see Trace5424).      *)
EXTENDS Compare3164, Json, IOUtils

CONSTANT Chunk

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, st
vars == <<t, i, st>>

In1 == Traces[t].in
Opt == Traces[t].opt

RECURSIVE Consume(_, _, _)
Consume(s, k, n) == IF n = 0 \/ k > Len(In1) \/ IsFail(s.ctl) THEN <<s, k>>
                    ELSE Consume(Step(s, In1[k], Opt.rfc), k + 1, n - 1)

Done == i = 0
Init == t \in 1..Len(Traces) /\ i = 1 /\ st = InitState
Read == /\ ~Done /\ i <= Len(In1) /\ ~IsFail(st.ctl)
        /\ LET x == Consume(st, i, Chunk) IN st' = x[1] /\ i' = x[2]
        /\ UNCHANGED t
End  == /\ ~Done /\ (i > Len(In1) \/ IsFail(st.ctl))
        /\ st' = Finish(st) /\ i' = 0 /\ UNCHANGED t
Next == Read \/ End
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ judgement
Tag(p, xs) == {<<p, x>> : x \in xs}

Judge(tr, f) ==
  LET acc    == IsOk(f.ctl)
      strict == {tr.ms, tr.ps}
      be     == {tr.mb, tr.pb}
      all    == strict \cup be
      opt    == tr.opt
      so     == Outcome(f, FALSE)
      bo     == Outcome(f, TRUE)
      P6 == UNION {(IF (r.err = <<>>) = acc THEN {} ELSE {"accept"}) \cup
                   (IF acc /\ r.msg = <<>> THEN {"message"} ELSE {}) \cup
                   (IF acc /\ r.msg # <<>> THEN FieldDiff(r.msg[1], so.msg[1], opt) \ {"ts"} ELSE {}) : r \in strict}
      \* timestamps: of accepted inputs, in every mode; and whether an input whose
      \* timestamp form is decided by the option is accepted at all
      P7 == UNION {IF acc /\ r.panic = "did not return" THEN {"hung"} ELSE IF acc /\ r.msg # <<>> THEN FieldDiff(r.msg[1], so.msg[1], opt) \cap {"ts"} ELSE {} : r \in all}
            \cup UNION {IF acc /\ r.err # <<>> THEN {"accept"} ELSE {} : r \in all}
            \cup (IF ~acc /\ f.ctl[2] \in {"timestamp", "rfc3339", "date"} /\ \E r \in all : r.err = <<>> THEN {"accept"} ELSE {})
      P8 == IF acc THEN UNION {MsgDiff(r.msg, bo.msg, opt) \cup (IF r.err = <<>> THEN {} ELSE {"error"}) : r \in be}
            ELSE UNION {IF ErrSame(r.err, so.err) THEN {} ELSE {"error"} : r \in all}
                 \cup UNION {IF r.msg = <<>> THEN {} ELSE {"message"} : r \in strict}
                 \cup UNION {MsgDiff(r.msg, bo.msg, opt) : r \in be}
      P9 == UNION {(IF r.panic = "" THEN {} ELSE {"panic"}) \cup
                   (IF r.msg = <<>> /\ r.err = <<>> THEN {"silent"} ELSE {}) \cup
                   (IF r.msg = <<>> THEN {} ELSE
                      LET m == r.msg[1] IN
                      (IF m.valid THEN {} ELSE {"valid"}) \cup
                      (IF m.pri \in 0..191 /\ m.fac = m.pri \div 8 /\ m.sev = m.pri % 8 THEN {} ELSE {"facsev"})) : r \in all}
            \cup UNION {IF r.msg # <<>> /\ r.err # <<>> THEN {"both"} ELSE {} : r \in strict}
            \cup (IF tr.ms = tr.ps /\ tr.mb = tr.pb THEN {} ELSE {"parser"})
  IN  Tag("C06", P6) \cup Tag("C07", P7) \cup Tag("C08", P8) \cup Tag("C09", P9)

Verdict == ~Done \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(Judge(Traces[t], st)))
=============================================================================
