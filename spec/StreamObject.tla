---------------------------- MODULE StreamObject ----------------------------
(* A stream parser object used for one stream after another.  A use can end *)
(* at the end of the stream, at a framing error, or early, when the         *)
(* listener or the reader panics; the registers keep what they held.        *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
O == INSTANCE OctetCounting
N == INSTANCE NonTransparent

CONSTANT Forgets   \* Parse starts with fresh registers; FALSE: with those of
                   \* the last use (the non-transparent parser before its repair)
Fmts == {"octet", "nt"}
Fresh(f) == IF f = "octet" THEN O!InitStream ELSE N!InitStream
Eof == 256
StepOf(f, st, b) == IF f = "octet" THEN O!StepStream(st, b, [max |-> <<50>>, maxtxt |-> "2"]) ELSE N!StepStream(st, b, 10)

\* [fmt, st, s, over, shown, busy]: the bytes of this use, whether the reader
\* has ended, and the results the listener has got
Created(f) == [fmt |-> f, st |-> Fresh(f), s |-> <<>>, over |-> FALSE, shown |-> <<>>, busy |-> FALSE]
CanBegin(p) == ~p.busy
Begin(p) == [p EXCEPT !.s = <<>>, !.over = FALSE, !.shown = <<>>, !.busy = TRUE,
                      !.st = IF Forgets THEN Fresh(p.fmt) ELSE [@ EXCEPT !.ctl = Fresh(p.fmt).ctl, !.out = <<>>, !.at = 0]]
AllShown(p) == Len(p.shown) = Len(p.st.out)
CanRead(p)  == p.busy /\ AllShown(p) /\ p.st.ctl # "end"
Read(p, b)  == IF b = Eof THEN [p EXCEPT !.st = StepOf(p.fmt, @, Eof), !.over = TRUE]
               ELSE [p EXCEPT !.st = StepOf(p.fmt, @, b), !.s = Append(@, b)]
CanShow(p)  == p.busy /\ ~AllShown(p)
Show(p)     == [p EXCEPT !.shown = Append(@, p.st.out[Len(@) + 1])]
CanEnd(p)   == p.busy /\ AllShown(p) /\ p.st.ctl = "end"
Leave(p)    == [p EXCEPT !.busy = FALSE]

\* what a new object makes of the same bytes
New(p) == LET st == FoldLeft(LAMBDA x, b : StepOf(p.fmt, x, b), Fresh(p.fmt), p.s)
          IN IF p.over THEN StepOf(p.fmt, st, Eof) ELSE st
=============================================================================
