--------------------------- MODULE ExportScanner ----------------------------
(* Prints what kind of token begins with each byte in each state of the     *)
(* scanner.                                                                 *)
EXTENDS Scanner, Json
ASSUME \A p \in BOOLEAN : \A r \in BOOLEAN :
         PrintT("ROW " \o ToJson([pending |-> p, ready |-> r, kinds |-> [k \in Kinds |-> {b \in 0..256 : Kind(p, r, b) = k}]]))
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
