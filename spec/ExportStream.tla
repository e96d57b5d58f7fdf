---------------------------- MODULE ExportStream ----------------------------
(* Prints the control automata of both framings, row by row.                *)
EXTENDS Naturals, Sequences, TLC, Json
O == INSTANCE OctetCounting
N == INSTANCE NonTransparent
Row(f, c, g, D(_)) ==
  ToJson([fmt |-> f, ctl |-> c, g |-> g,
          cls |-> {[to |-> d.to, acts |-> d.acts, bytes |-> {b \in 0..256 : D(b) = d}] : d \in {D(b) : b \in 0..256}}])
ASSUME \A c \in O!Ctls : \A g \in BOOLEAN : LET D(b) == O!Delta(c, b, g) IN PrintT("ROW " \o Row("octet", c, g, D))
ASSUME \A c \in N!Ctls : \A tr \in {10, 0} : LET D(b) == N!Delta(c, b, tr) IN PrintT("ROW " \o Row(IF tr = 10 THEN "lf" ELSE "nul", c, FALSE, D))
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
