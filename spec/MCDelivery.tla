----------------------------- MODULE MCDelivery ------------------------------
(* When results are delivered.  A peer writes bytes whenever it likes, or   *)
(* never again; a reader that has nothing blocks; the parser consumes what  *)
(* it has read (octet counting: byte by byte; non-transparent: line by      *)
(* line) and asks for more only when it has nothing left to consume.        *)
(*                                                                          *)
(* No fairness is assumed of the peer, so the liveness properties say that  *)
(* results never wait for bytes which do not determine them: a peer that    *)
(* waits for the effect of one message before it sends the next (octet      *)
(* counting) or the one after the next (non-transparent) never waits in     *)
(* vain.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
O == INSTANCE OctetCounting
N == INSTANCE NonTransparent

CONSTANTS Framing,      \* "octet" or "lf"
          Alphabet, MaxBytes,
          Hoard,        \* a broken design: results are shown when the reader ends
          ReadsOn       \* a broken design: reading goes on after the end
Par == [max |-> <<57>>, maxtxt |-> "9"]
Octet == Framing = "octet"

\* sent: written by the peer; got: how many of these were read; used: how
\* many of these were consumed; st: the framing; shown: results the listener
\* has seen; ask: the parser is blocked in a read
VARIABLES sent, closed, got, used, st, shown, ask
vars == <<sent, closed, got, used, st, shown, ask>>

Init == /\ sent = <<>> /\ closed = FALSE /\ got = 0 /\ used = 0 /\ shown = 0 /\ ask = FALSE
        /\ st = IF Octet THEN O!InitStream ELSE N!InitStream

Write == /\ ~closed /\ Len(sent) < MaxBytes /\ \E b \in Alphabet : sent' = Append(sent, b)
         /\ UNCHANGED <<closed, got, used, st, shown, ask>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<sent, got, used, st, shown, ask>>

Show(x) == IF Hoard THEN shown ELSE Len(x.out)
Line == IF Octet THEN (IF used < got THEN 1 ELSE 0)
        ELSE LET e == {j \in used + 1..got : sent[j] = 10} IN IF e = {} THEN 0 ELSE (CHOOSE j \in e : \A k \in e : j <= k) - used
RECURSIVE Take(_, _)
Take(x, n) == IF n = 0 THEN x ELSE LET b == sent[used + Len(SubSeq(sent, used + 1, used + Line)) - n + 1]
                                   IN Take(IF Octet THEN O!StepStream(x, b, Par) ELSE N!StepStream(x, b, 10), n - 1)
Step == /\ ~ask /\ st.ctl # "end" /\ Line > 0
        /\ st' = Take(st, Line) /\ used' = used + Line /\ shown' = Show(st')
        /\ UNCHANGED <<sent, closed, got, ask>>
Ask == /\ ~ask /\ Line = 0 /\ (st.ctl # "end" \/ ReadsOn)
       /\ ask' = TRUE /\ UNCHANGED <<sent, closed, got, used, st, shown>>
Read == /\ ask /\ got < Len(sent)
        /\ got' \in got + 1..Len(sent)
        /\ ask' = FALSE /\ UNCHANGED <<sent, closed, used, st, shown>>
\* the end of the reader: what is left of a line is consumed, then the end
RECURSIVE Rest(_, _)
Rest(x, k) == IF k > got THEN (IF Octet THEN O!StepStream(x, 256, Par) ELSE N!StepStream(x, 256, 10))
              ELSE Rest(IF Octet THEN O!StepStream(x, sent[k], Par) ELSE N!StepStream(x, sent[k], 10), k + 1)
End == /\ ask /\ closed /\ got = Len(sent)
       /\ st' = Rest(st, used + 1) /\ used' = got /\ shown' = Len(st'.out) /\ ask' = FALSE
       /\ UNCHANGED <<sent, closed, got>>
Parser == Step \/ Ask \/ Read \/ End
Next == Write \/ Close \/ Parser
Spec == Init /\ [][Next]_vars /\ WF_vars(Parser)

Settled(w) == IF Octet THEN O!Settled(w, Par) ELSE N!Settled(w, 10)
Due(w) == Len(Settled(w))

\* nothing that has been read and settles a result waits for another read
Prompt == ask => shown >= Due(SubSeq(sent, 1, got))
\* nothing is shown that the bytes read do not contain
NotEarly == LET es == IF Octet THEN O!EmissionsOf(SubSeq(sent, 1, got), Par) ELSE N!EmissionsOf(SubSeq(sent, 1, got), 10)
            IN shown <= Len(es) /\ \A k \in 1..shown : st.out[k].at <= got
\* the parser does not read on after the end of a stream
NoMoreReads == st.ctl = "end" => ~ask
\* in non-transparent framing one frame at most is complete and not settled
OneBehind == Framing = "lf" /\ (sent = <<>> \/ sent[1] = 60) =>
               LET all == {k \in 1..Len(sent) : sent[k] = 10 /\ (k = Len(sent) \/ sent[k + 1] = 60)}
               IN Due(sent) + 1 >= Cardinality({k \in all : \E j \in all : j > k}) + (IF all = {} THEN 0 ELSE 1)

Delivered1 == (Due(sent) >= 1) ~> (shown >= 1)
Delivered2 == (Due(sent) >= 2) ~> (shown >= 2)
Returns    == [](closed => <>(st.ctl = "end"))
=============================================================================
