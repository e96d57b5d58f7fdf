---------------------------- MODULE StreamOptions ----------------------------
(* Stream parser objects: what their options mean together, given when they *)
(* are made or later, and what a call of Parse delivers and to whom.  An    *)
(* option is [o, v]: be (best effort), max (WithMaxMessageLength <<n>>),    *)
(* lst (WithListener <<id>>), tr (WithTrailer <<byte>>, or <<>> for a type  *)
(* that does not exist).                                                    *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt
O == INSTANCE OctetCounting
N == INSTANCE NonTransparent

CONSTANT Reaches   \* best effort switched on later reaches the message parser
                   \* inside; FALSE is the design before the repair

Defaults == [be |-> FALSE, max |-> 8192, lst |-> 0, tr |-> 10]
Apply(opt, x) == CASE x.o = "be"  -> [opt EXCEPT !.be = TRUE]
                   [] x.o = "max" -> [opt EXCEPT !.max = x.v[1]]
                   [] x.o = "lst" -> [opt EXCEPT !.lst = x.v[1]]
                   [] x.o = "tr"  -> IF x.v = <<>> THEN opt ELSE [opt EXCEPT !.tr = x.v[1]]
Meaning(xs) == FoldLeft(Apply, Defaults, xs)

\* kind: "octet" or "nt"; inner: the mode of the message parser inside
New(kind, xs) == LET m == Meaning(xs) IN [kind |-> kind, opt |-> m, inner |-> m.be]
Set(p, x)     == [p EXCEPT !.opt = Apply(@, x), !.inner = IF x.o = "be" /\ Reaches THEN TRUE ELSE @]
HasBestEffort(p) == p.opt.be

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
Par(n) == [max |-> IF n < 0 THEN <<>> ELSE DigitsOf(n), maxtxt |-> ToString(n)]

\* Out(in, be): [msg, err]: the outcome of a message alone; err is <<>> for
\* none. What Parse delivers for stream s whose reader ends with the text end:
\* [msg, err, txt], txt being an error of the framing or of the reader.
Results(p, s, end, Out(_, _)) ==
  LET Bad(w) == Out(w, p.inner).err # <<>>
      es == IF p.kind = "octet" THEN O!Delivered(O!EmissionsOf(s, Par(p.opt.max)), p.opt.be, Bad) ELSE N!Delivered(N!EmissionsOf(s, p.opt.tr))
      W(e) == CASE e.k = "verbatim" -> [msg |-> Out(e.in, p.inner).msg, err |-> Out(e.in, p.inner).err, txt |-> ""]
                [] e.k = "error"    -> [msg |-> <<>>, err |-> Out(e.in, p.inner).err, txt |-> ""]
                [] e.k = "with"     -> LET x == Out(e.in, p.inner)
                                       IN [msg |-> x.msg, err |-> x.err, txt |-> IF x.err # <<>> THEN "" ELSE IF p.kind = "octet" THEN e.txt ELSE end]
                [] OTHER            -> [msg |-> <<>>, err |-> <<>>, txt |-> e.txt]
  IN [k \in DOMAIN es |-> W(es[k])]
=============================================================================
