--------------------------- MODULE MCStreamObject ---------------------------
(* Design check of StreamObject: sequences of uses with every short stream, *)
(* ended in every way at every point.                                       *)
EXTENDS StreamObject
LOCAL INSTANCE SequencesExt
CONSTANTS MaxBytes, MaxUses
VARIABLES p, uses, how
vars == <<p, uses, how>>
Alphabet(f) == IF f = "octet" THEN {50, 51, 32, 60} ELSE {60, 10, 120}
Init == p \in {Created(f) : f \in Fmts} /\ uses = 0 /\ how = "new"
Start == CanBegin(p) /\ uses < MaxUses /\ p' = Begin(p) /\ uses' = uses + 1 /\ how' = "running"
Byte == /\ CanRead(p)
        /\ \E b \in Alphabet(p.fmt) \cup {Eof} : (b = Eof \/ Len(p.s) < MaxBytes) /\ p' = Read(p, b)
        /\ UNCHANGED <<uses, how>>
Result == CanShow(p) /\ p' = Show(p) /\ UNCHANGED <<uses, how>>
\* the listener panics with a result, the reader when it is asked for bytes
ListenerDies == CanShow(p) /\ p' = Leave(Show(p)) /\ how' = "died" /\ UNCHANGED uses
ReaderDies   == CanRead(p) /\ p' = Leave(p) /\ how' = "died" /\ UNCHANGED uses
Return == CanEnd(p) /\ p' = Leave(p) /\ how' = "returned" /\ UNCHANGED uses
Next == Start \/ Byte \/ Result \/ ListenerDies \/ ReaderDies \/ Return
Spec == Init /\ [][Next]_vars

AsNew    == uses > 0 => p.st = New(p)
InOrder  == uses > 0 => IsPrefix(p.shown, New(p).out)
Complete == how = "returned" => p.shown = New(p).out
=============================================================================
