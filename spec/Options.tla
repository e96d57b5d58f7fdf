------------------------------ MODULE Options -------------------------------
(* What the options of the message parsers mean together. A parser is made  *)
(* with a sequence of options; best effort can be switched on later. An     *)
(* option is [o, v]: its name, and <<value>> or <<>> (none or nil).         *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE SequencesExt
Flags  == {"be", "cmp", "rfc"}
Values == {"year", "loc", "zone"}
\* be: best effort; cmp: WithCompliantMsg; rfc: WithRFC3339; year: WithYear;
\* loc: WithLocaleTimezone; zone: WithTimezone (offsets in seconds)
Defaults == [be |-> FALSE, cmp |-> FALSE, rfc |-> FALSE, year |-> <<0>>, loc |-> <<>>, zone |-> <<>>]
Apply(opt, x) == CASE x.o = "be"   -> [opt EXCEPT !.be = TRUE]
                   [] x.o = "cmp"  -> [opt EXCEPT !.cmp = TRUE]
                   [] x.o = "rfc"  -> [opt EXCEPT !.rfc = TRUE]
                   [] x.o = "year" -> [opt EXCEPT !.year = x.v]
                   [] x.o = "loc"  -> [opt EXCEPT !.loc = x.v]
                   [] x.o = "zone" -> [opt EXCEPT !.zone = x.v]
Meaning(xs) == FoldLeft(Apply, Defaults, xs)
\* the options of the time of day of RFC 3164
TimeOpt(opt) == [year |-> opt.year[1], locoff |-> IF opt.loc = <<>> THEN 0 ELSE opt.loc[1], zoneoff |-> opt.zone]

(* Parser objects: made, switched to best effort, used.                     *)
New(kind, xs)   == [kind |-> kind, opt |-> Meaning(xs)]
SwitchOn(p)     == [p EXCEPT !.opt.be = TRUE]
HasBestEffort(p) == p.opt.be
=============================================================================
