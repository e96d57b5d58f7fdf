----------------------------- MODULE MCEdge5424 -----------------------------
(* Design check of Rfc5424, the other way round: from every control state    *)
(* (reached on a shortest way) every one of the 256 bytes is read, and the   *)
(* declarative definitions of MC5424 are evaluated on the input, on the      *)
(* input followed by a completion of where it is, and - for a failed one -   *)
(* on the input followed by the completion of anywhere.                      *)
EXTENDS MC5424

CONSTANT AllBytes    \* every byte, or only those at the edges of byte classes
VARIABLES from, probed
evars == <<vars, from, probed>>

\* enough bytes to get everywhere
Guide == {60, 62, 48, 49, 50, 51, 57, 32, 45, 58, 46, 43, 84, 90, 97, 91, 93, 61, 34, 92, 194, 224, 225, 237, 240, 241, 244, 160, 144, 128, 239, 187, 191}
Probes == IF AllBytes THEN Byte ELSE Guide \cup {b + 1 : b \in Guide} \cup {b - 1 : b \in Guide} \cup {0, 8, 31, 127, 255}
EInit == /\ sc = 1 /\ in = <<>> /\ cmp \in BOOLEAN /\ st = InitState /\ from = InitCtl /\ probed = FALSE
Feed(b, p) == /\ ~probed /\ ~IsFail(st.ctl)
              /\ st' = Step(st, b, cmp) /\ in' = Append(in, b) /\ from' = st.ctl /\ probed' = p
              /\ UNCHANGED <<sc, cmp>>
ENext == (\E b \in Guide : Feed(b, FALSE)) \/ (\E b \in Probes : Feed(b, TRUE))
ESpec == EInit /\ [][ENext]_evars
\* one representative per control state, and per byte read in it
EView == IF probed THEN <<cmp, from, in[Len(in)]>> ELSE <<cmp, st.ctl>>
=============================================================================
