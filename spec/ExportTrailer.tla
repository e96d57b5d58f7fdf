--------------------------- MODULE ExportTrailer ----------------------------
(* Prints every text of every type. *)
EXTENDS TrailerText, TLC, Json
VARIABLE x
Init == \E t \in Types : \E s \in TextsOf(t) : x = [t |-> t, s |-> s]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Show == PrintT("TEXT " \o ToJson(x))
=============================================================================
