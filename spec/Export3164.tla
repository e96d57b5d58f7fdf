----------------------------- MODULE Export3164 -----------------------------
(* As Export5424: the control automaton of Rfc3164 with the real limits.    *)
EXTENDS Rfc3164, Json
VARIABLES ctl, rfc       \* rfc: WithRFC3339

Init == ctl = InitCtl /\ rfc \in BOOLEAN
Next == \E b \in Byte : ctl' = Delta(ctl, b, rfc).to /\ UNCHANGED rfc

Classes(c, k) == LET f == [b \in Byte |-> Delta(c, b, k)]
              IN {[to |-> t.to, acts |-> t.acts, bytes |-> {b \in Byte : f[b] = t}] : t \in {f[b] : b \in Byte}}
Row(c, k) == ToJson([var |-> IF k THEN "rfc3339" ELSE "plain", ctl |-> c, eof |-> EofDelta(c), cls |-> Classes(c, k)])

ASSUME PrintT("ERR " \o ToJson([k \in ErrKinds |-> ErrText(k)]))

Emit == IsFail(ctl) \/ PrintT("ROW " \o Row(ctl, rfc))
Spec == Init /\ [][Next]_<<ctl, rfc>>
=============================================================================
