---------------------------- MODULE TraceObject -----------------------------
(* Judges recorded histories of real objects (parsers, machines, stream     *)
(* parsers, builders) against the interface ParserObject specifies: an      *)
(* object that behaves like a function, however it is used.  A trace is a   *)
(* property, the outcome of every input alone (recorded on new objects in   *)
(* processes of their own) and the events in the order they happened:       *)
(*   inv g k      goroutine g calls with input k                            *)
(*   ret g out    that call returns                                         *)
(*   again g n out  what g's n-th result looks like now                     *)
(*   over g n       goroutine g changes the message of its n-th result      *)
(*   wrote g      the call changed the caller's buffer                      *)
(*   race txt, crash txt, hung g   seen by the runtime or the watchdog      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, pend, rets, bad
vars == <<t, i, pend, rets, bad>>
T == Traces[t]
Gs == 1..T.gs

Known(k) == \E x \in DOMAIN T.alone : T.alone[x].k = k
Alone(k) == LET x == CHOOSE x \in DOMAIN T.alone : T.alone[x].k = k IN T.alone[x].out

Init == /\ t \in 1..Len(Traces) /\ i = 1
        /\ pend = [g \in 1..Traces[t].gs |-> ""] /\ rets = [g \in 1..Traces[t].gs |-> <<>>]
        /\ bad = {}
E == T.evs[i]
More == i # 0 /\ i <= Len(T.evs)
Blame(c) == bad' = bad \cup {<<T.prop, c>>}
Unusable(c) == bad' = bad \cup {<<"HARNESS", c>>}

\* the transitions of the specified object; an event it does not allow is blamed
Inv   == /\ More /\ E.e = "inv" /\ i' = i + 1 /\ UNCHANGED <<t, rets>>
         /\ pend' = [pend EXCEPT ![E.g] = E.k]
         /\ IF pend[E.g] = "" /\ Known(E.k) THEN UNCHANGED bad ELSE Unusable("inv")
Ret   == /\ More /\ E.e = "ret" /\ i' = i + 1 /\ UNCHANGED t
         /\ pend' = [pend EXCEPT ![E.g] = ""]
         /\ rets' = [rets EXCEPT ![E.g] = Append(@, E.out)]
         /\ IF pend[E.g] = "" THEN Unusable("ret")
            ELSE IF E.out = Alone(pend[E.g]) THEN UNCHANGED bad ELSE Blame("outcome")
Again == /\ More /\ E.e = "again" /\ i' = i + 1 /\ UNCHANGED <<t, pend, rets>>
         /\ IF E.n \notin DOMAIN rets[E.g] THEN Unusable("again")
            ELSE IF E.out = rets[E.g][E.n] THEN UNCHANGED bad ELSE Blame("changed")
\* what the caller made of a message is its own affair
Over  == /\ More /\ E.e = "over" /\ i' = i + 1 /\ UNCHANGED <<t, pend>>
         /\ IF E.n \notin DOMAIN rets[E.g] THEN Unusable("over") /\ UNCHANGED rets
            ELSE rets' = [rets EXCEPT ![E.g][E.n] = "changed by the caller"] /\ UNCHANGED bad
Other == /\ More /\ E.e \in {"wrote", "race", "crash", "hung"} /\ i' = i + 1 /\ UNCHANGED <<t, pend, rets>>
         /\ Blame(E.e)
End   == /\ i = Len(T.evs) + 1 /\ i' = 0 /\ UNCHANGED <<t, pend, rets, bad>>
Next  == Inv \/ Ret \/ Again \/ Over \/ Other \/ End
Spec  == Init /\ [][Next]_vars

Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
