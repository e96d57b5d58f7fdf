------------------------- MODULE TraceStreamOptions --------------------------
(* Judges recorded histories of real stream parsers: made with options,     *)
(* given more of them later, used. Every event carries what HasBestEffort   *)
(* said of each object afterwards; a Parse call carries the results of each *)
(* listener: [l, msg, err, raw]. What a message yields is Rfc5424.               *)
EXTENDS StreamOptions, Json, IOUtils
CONSTANTS MaxHost, MaxApp, MaxProc, MaxMsgid, MaxName
R5 == INSTANCE Compare5424
Out(w, be) == R5!Outcome(R5!Run(w, FALSE), be)
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, objs, bad
vars == <<t, i, objs, bad>>
Evs == Traces[t].evs
Init == t \in 1..Len(Traces) /\ i = 1 /\ objs = <<>> /\ bad = {}

ErrDiff(r, w) == IF w.err # <<>> THEN ~R5!ErrSame(r.raw, w.err) ELSE r.err # (IF w.txt = "" THEN <<>> ELSE <<w.txt>>)
\* nobody sees the results of a parser without a listener
Diff(p, e) ==
  LET ws == IF p.opt.lst = 0 THEN <<>> ELSE Results(p, e.in, "unexpected EOF", Out)
      rs == e.res
      D  == {k \in DOMAIN ws : k \in DOMAIN rs /\ (rs[k].l # p.opt.lst \/ R5!MsgDiff(rs[k].msg, ws[k].msg) # {} \/ ErrDiff(rs[k], ws[k]))}
      k  == CHOOSE k \in D : \A j \in D : k <= j
  IN IF p.kind = "nt" /\ ~N!Framed(e.in) THEN {}
     ELSE IF D # {} THEN (IF rs[k].l # p.opt.lst THEN {"listener"} ELSE IF ErrDiff(rs[k], ws[k]) THEN {"error"} ELSE {"message"})
     ELSE IF Len(rs) = Len(ws) THEN {} ELSE {"number of results"}

Do(e) == CASE e.op = "new" -> Append(objs, New(e.kind, e.opts))
           [] e.op = "set" -> [objs EXCEPT ![e.obj] = Set(@, e.opt)]
           [] OTHER        -> objs
Step == /\ i \in 1..Len(Evs) /\ i' = i + 1 /\ UNCHANGED t
        /\ LET e == Evs[i] IN
           /\ objs' = Do(e)
           /\ bad' = bad \cup (IF e.panic # "" THEN {<<"C29", "panic">>}
                               ELSE IF e.op = "parse" THEN {<<"C29", c>> : c \in Diff(objs[e.obj], e)} ELSE {})
                         \cup (IF e.has = [k \in DOMAIN Do(e) |-> HasBestEffort(Do(e)[k])] THEN {} ELSE {<<"C29", "mode">>})
End  == i = Len(Evs) + 1 /\ i' = 0 /\ UNCHANGED <<t, objs, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
