----------------------------- MODULE MCEdge3164 -----------------------------
(* As MCEdge5424: every control state of Rfc3164 with every byte.           *)
EXTENDS MC3164

CONSTANT AllBytes    \* every byte, or only those at the edges of byte classes
VARIABLES from, probed
evars == <<vars, from, probed>>

Guide == {60, 62, 48, 49, 50, 51, 57, 32, 45, 58, 43, 84, 90, 91, 93, 116, 9} \cup UNION {{Months[i][j] : j \in 1..3} : i \in 1..12}
Probes == IF AllBytes THEN Byte ELSE Guide \cup {b + 1 : b \in Guide} \cup {b - 1 : b \in Guide} \cup {0, 8, 31, 127, 255}
EInit == /\ sc = 1 /\ in = <<>> /\ rfc \in BOOLEAN /\ st = InitState /\ from = InitCtl /\ probed = FALSE
Feed(b, p) == /\ ~probed /\ ~IsFail(st.ctl)
              /\ st' = Step(st, b, rfc) /\ in' = Append(in, b) /\ from' = st.ctl /\ probed' = p
              /\ UNCHANGED <<sc, rfc>>
ENext == (\E b \in Guide : Feed(b, FALSE)) \/ (\E b \in Probes : Feed(b, TRUE))
ESpec == EInit /\ [][ENext]_evars
EView == IF probed THEN <<rfc, from, in[Len(in)]>> ELSE <<rfc, st.ctl>>
=============================================================================
