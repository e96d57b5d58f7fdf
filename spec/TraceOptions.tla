---------------------------- MODULE TraceOptions ----------------------------
(* Judges recorded histories of real parser objects: made with options,     *)
(* switched to best effort, used. Every event carries what HasBestEffort    *)
(* said of each object afterwards.                                          *)
EXTENDS Options, Json, IOUtils, TLC
CONSTANTS MaxHost, MaxTag, MaxApp, MaxProc, MaxMsgid, MaxName
R5 == INSTANCE Compare5424
R3 == INSTANCE Compare3164
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, objs, bad
vars == <<t, i, objs, bad>>
Evs == Traces[t].evs
Init == t \in 1..Len(Traces) /\ i = 1 /\ objs = <<>> /\ bad = {}

Diff5(p, e) == LET s == R5!Outcome(R5!Run(e.in, p.opt.cmp), p.opt.be)
               IN R5!MsgDiff(e.res.msg, s.msg) \cup (IF R5!ErrSame(e.res.err, s.err) THEN {} ELSE {"error"})
Diff3(p, e) == LET s == R3!Outcome(R3!Run(e.in, p.opt.rfc), p.opt.be)
               IN R3!MsgDiff(e.res.msg, s.msg, TimeOpt(p.opt)) \cup (IF R3!ErrSame(e.res.err, s.err) THEN {} ELSE {"error"})
Diff(p, e) == IF e.res.panic # "" THEN {"panic"} ELSE IF p.kind = "5424" THEN Diff5(p, e) ELSE Diff3(p, e)

Do(e) == CASE e.op = "new" -> Append(objs, New(e.kind, e.opts))
           [] e.op = "on"  -> [objs EXCEPT ![e.obj] = SwitchOn(@)]
           [] OTHER        -> objs
Step == /\ i \in 1..Len(Evs) /\ i' = i + 1 /\ UNCHANGED t
        /\ LET e == Evs[i] IN
           /\ objs' = Do(e)
           /\ bad' = bad \cup (IF e.op = "parse" THEN {<<"C26", c>> : c \in Diff(objs[e.obj], e)} ELSE {})
                         \cup (IF e.op = "parse" /\ e.last # <<>> /\ e.last[1].err # e.res.err THEN {<<"C26", "last error">>} ELSE {})
                         \cup (IF e.panic # "" THEN {<<"C26", "panic">>} ELSE {})
                         \cup (IF e.has = [k \in DOMAIN Do(e) |-> HasBestEffort(Do(e)[k])] THEN {} ELSE {<<"C26", "mode">>})
End  == i = Len(Evs) + 1 /\ i' = 0 /\ UNCHANGED <<t, objs, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
