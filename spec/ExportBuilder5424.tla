-------------------------- MODULE ExportBuilder5424 --------------------------
(* Prints, for the Go harness, where each builder field starts, may be and  *)
(* ends in the control automaton of Rfc5424 (exported by Export5424).       *)
EXTENDS Builder5424, Json
VARIABLE x
ASSUME PrintT("ENTRY " \o ToJson([f \in Fields |-> [from |-> Entry(f).from, phases |-> Entry(f).in, end |-> Entry(f).end]]))
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
