--------------------------- MODULE MCBuilderObject --------------------------
(* Design check of ParserObject for the builder: goroutines set fields of   *)
(* messages of their own, byte by byte, with the scanner of Builder5424.    *)
(* An input is one byte naming the field and the value.  The registers of a *)
(* setter call belong to that call (SharedC = FALSE); if they were shared,  *)
(* for instance at package level, Functional is violated.                   *)
EXTENDS Bytes, TLC
CONSTANTS Workers, CallsEach, SharedC, ResetsC
B == INSTANCE Builder5424 WITH MaxHost <- 3, MaxApp <- 2, MaxProc <- 2, MaxMsgid <- 2, MaxName <- 3
MStart == [ctl |-> <<"pick">>, regs |-> B!InitRegs, col |-> 0, f |-> "none"]
Named(b) == CASE b = 104 -> "hostname" [] b = 97 -> "appname" [] b = 105 -> "sdid" [] OTHER -> "sdpv"
MNext(m, b) == IF m.ctl = <<"pick">> THEN [m EXCEPT !.f = Named(b), !.ctl = B!Entry(Named(b)).from]
               ELSE LET x == B!Step([ctl |-> m.ctl, regs |-> m.regs, col |-> m.col], b, FALSE)
                    IN IF m.f # "none" /\ x.ctl[1] \in B!Entry(m.f).in THEN x @@ [f |-> m.f]
                       ELSE [ctl |-> B!Fail("field"), regs |-> x.regs, col |-> 0, f |-> m.f]
\* the value the message gets, None if it is left alone
MOut(m) == IF m.f = "none" \/ m.ctl = <<"pick">> THEN <<>>
           ELSE LET e == B!Entry(m.f)
                    z == B!Step([ctl |-> m.ctl, regs |-> m.regs, col |-> m.col], e.end, FALSE)
                IN IF B!IsFail(m.ctl) \/ B!IsFail(z.ctl) \/ z.ctl[1] \in e.in THEN <<>>
                   ELSE << [f |-> m.f, r |-> z.regs] >>
\* hab  h(SP)  aa  iab  ia=  v\]b  v\x
Words == {<<104, 97, 98>>, <<104, 32>>, <<97, 97>>, <<105, 97, 98>>, <<105, 97, 61>>, <<118, 92, 93, 98>>, <<118, 92, 120>>}
VARIABLES mem, lock, pc, buf, arg, pos, res, left, memo
P == INSTANCE ParserObject WITH Goroutines <- 1..Workers, Inputs <- Words, Calls <- CallsEach, Shared <- SharedC, Locked <- FALSE,
                                Resets <- ResetsC, Copies <- TRUE, Fresh <- TRUE, M0 <- MStart, MStep <- MNext, MEnd <- MOut
Spec == P!Spec
Functional == P!Functional
BufferKept == P!BufferKept
=============================================================================
