--------------------------- MODULE MCParserObject ---------------------------
(* Design check of ParserObject with the machines of both formats, at byte  *)
(* granularity: goroutines interleave between any two bytes.                *)
EXTENDS Bytes, TLC
CONSTANTS Format, Workers, CallsEach, SharedC, LockedC, ResetsC, CopiesC, FreshC
F5 == INSTANCE Rfc5424 WITH MaxHost <- 2, MaxApp <- 2, MaxProc <- 2, MaxMsgid <- 2, MaxName <- 2
F3 == INSTANCE Rfc3164 WITH MaxHost <- 2, MaxTag <- 2
MStart == IF Format = "5424" THEN F5!InitState ELSE F3!InitState
MNext(m, b) == IF Format = "5424" THEN F5!Step(m, b, FALSE) ELSE F3!Step(m, b, TRUE)
MOut(m) == IF Format = "5424" THEN F5!Outcome(F5!Finish(m), TRUE) ELSE F3!Outcome(F3!Finish(m), TRUE)
\* <1>1 - - - - - -   <9>2 - h  <1>1 - - - - - [i a="b"] m   <7   <1>1 - - - - - [i n="\
Words == IF Format = "5424"
         THEN {<<60, 49, 62, 49, 32, 45, 32, 45, 32, 45, 32, 45, 32, 45, 32, 45>>,
               <<60, 57, 62, 50, 32, 45, 32, 104>>,
               <<60, 49, 62, 49, 32, 45, 32, 45, 32, 45, 32, 45, 32, 45, 32, 91, 105, 32, 97, 61, 34, 98, 34, 93, 32, 109>>,
               <<60, 55>>,
               <<60, 49, 62, 49, 32, 45, 32, 45, 32, 45, 32, 45, 32, 45, 32, 91, 105, 32, 110, 61, 34, 92>>}
\* <1>Jan  1 00:00:00 h t[1]: m   <2>Feb 31 00:00:00 h x   <3   <4>2
         ELSE {<<60, 49, 62, 74, 97, 110, 32, 32, 49, 32, 48, 48, 58, 48, 48, 58, 48, 48, 32, 104, 32, 116, 91, 49, 93, 58, 32, 109>>,
               <<60, 50, 62, 70, 101, 98, 32, 50, 56, 32, 48, 48, 58, 48, 48, 58, 48, 48, 32, 104, 32, 120>>,
               <<60, 51>>, <<60, 52, 62, 50>>}
VARIABLES mem, lock, pc, buf, arg, pos, res, left, memo
P == INSTANCE ParserObject WITH Goroutines <- 1..Workers, Inputs <- Words, Calls <- CallsEach, Shared <- SharedC, Locked <- LockedC, Resets <- ResetsC,
                                Copies <- CopiesC, Fresh <- FreshC, M0 <- MStart, MStep <- MNext, MEnd <- MOut
Spec == P!Spec
Functional == P!Functional
Exclusive  == P!Exclusive
BufferKept == P!BufferKept
=============================================================================
