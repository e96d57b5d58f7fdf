--------------------------- MODULE MCStreamOptions ---------------------------
(* Design check of StreamOptions: two objects, options given when made and  *)
(* later, in any order, with Parse calls in between.                        *)
EXTENDS StreamOptions, FiniteSets
CONSTANTS MaxOpts
R5 == INSTANCE Rfc5424 WITH MaxHost <- 2, MaxApp <- 2, MaxProc <- 2, MaxMsgid <- 2, MaxName <- 2
Out(w, be) == R5!Outcome(R5!Run(w, FALSE), be)
All == {[o |-> "be", v |-> <<>>]} \cup [o : {"max"}, v : {<<3>>, <<-1>>}] \cup [o : {"lst"}, v : {<<1>>, <<2>>}]
       \cup [o : {"tr"}, v : {<<0>>, <<10>>, <<>>}]
For(kind) == {x \in All : kind = "octet" => x.o # "tr"}
\* "4 <1>23 <1>", "3 <1>4 <1>2<1>", "4 <1>2x3 <", "3 <1>\n<1>2\0<2"
Streams == { <<52, 32, 60, 49, 62, 50, 51, 32, 60, 49, 62>>, <<51, 32, 60, 49, 62, 52, 32, 60, 49, 62, 50, 60, 49, 62>>,
             <<52, 32, 60, 49, 62, 50, 120, 51, 32, 60>>, <<60, 49, 62, 10, 60, 49, 62, 50, 0, 60, 50>> }

\* given: the options given to the object so far; n: Parse calls made;
\* seen: what the listeners have been given by the latest one
VARIABLES kind, given, made, p, n, seen
vars == <<kind, given, made, p, n, seen>>
Init == /\ kind \in {"octet", "nt"} /\ given = <<>> /\ made = FALSE /\ p = New(kind, <<>>) /\ n = 0 /\ seen = <<>>
Give  == ~made /\ Len(given) < MaxOpts /\ \E x \in For(kind) : given' = Append(given, x) /\ UNCHANGED <<kind, made, p, n, seen>>
Make  == ~made /\ made' = TRUE /\ p' = New(kind, given) /\ UNCHANGED <<kind, given, n, seen>>
Later == made /\ Len(given) < MaxOpts /\ \E x \in For(kind) : given' = Append(given, x) /\ p' = Set(p, x) /\ seen' = <<>> /\ UNCHANGED <<kind, made, n>>
Parse == made /\ n < 2 /\ \E s \in Streams : n' = n + 1 /\ seen' = <<[s |-> s, l |-> p.opt.lst, rs |-> Results(p, s, "end", Out)]>> /\ UNCHANGED <<kind, given, made, p>>
Next == Give \/ Make \/ Later \/ Parse
Spec == Init /\ [][Next]_vars

Given(f) == {k \in DOMAIN given : given[k].o = f /\ (f = "tr" => given[k].v # <<>>)}
LastOf(f, d) == IF Given(f) = {} THEN d ELSE given[CHOOSE k \in Given(f) : \A j \in Given(f) : j <= k].v[1]
Declared == [be |-> Given("be") # {}, max |-> LastOf("max", 8192), lst |-> LastOf("lst", 0), tr |-> LastOf("tr", 10)]
\* however and whenever options are given, the object is what they say
AsGiven == made => p.opt = Declared /\ p.opt = Meaning(given)
\* ... and so is what it delivers: as of an object made with all of them
AsMade == seen # <<>> => /\ seen[1].rs = Results(New(kind, given), seen[1].s, "end", Out)
                         /\ seen[1].l = Declared.lst
\* a strict parser gives no message with an error of it, and stops at it in
\* octet counting
Modes == seen # <<>> => \A k \in DOMAIN seen[1].rs :
           LET r == seen[1].rs[k] IN r.err # <<>> =>
             Declared.be \/ (r.msg = <<>> /\ (kind = "octet" => k = Len(seen[1].rs)))
\* options that do not concern a framing change nothing
NoConcern == seen # <<>> => Results([p EXCEPT !.opt.max = IF kind = "nt" THEN 0 ELSE @, !.opt.tr = IF kind = "octet" THEN 0 ELSE @], seen[1].s, "end", Out) = seen[1].rs
=============================================================================
