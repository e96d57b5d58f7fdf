----------------------------- MODULE Export5424 -----------------------------
(* TLC explores the control automaton of Rfc5424 with the real limits and   *)
(* prints every reachable control state with its complete transition row:   *)
(* the test model the Go harness replays against the implementation.        *)
EXTENDS Rfc5424, Json
VARIABLES ctl, cmp       \* cmp: WithCompliantMsg

Init == ctl = InitCtl /\ cmp \in BOOLEAN
Next == \E b \in Byte : ctl' = Delta(ctl, b, cmp).to /\ UNCHANGED cmp

Classes(c, k) == LET f == [b \in Byte |-> Delta(c, b, k)]
              IN {[to |-> t.to, acts |-> t.acts, bytes |-> {b \in Byte : f[b] = t}] : t \in {f[b] : b \in Byte}}
Row(c, k) == ToJson([var |-> IF k THEN "compliant" ELSE "plain", ctl |-> c, eof |-> EofDelta(c), cls |-> Classes(c, k)])

ASSUME PrintT("ERR " \o ToJson([k \in ErrKinds |-> ErrText(k)]))


Emit == IsFail(ctl) \/ PrintT("ROW " \o Row(ctl, cmp))
Spec == Init /\ [][Next]_<<ctl, cmp>>
=============================================================================
