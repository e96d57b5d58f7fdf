---------------------------- MODULE TrailerText -----------------------------
(* Trailer types of non-transparent framing, their texts, and the option    *)
(* that sets a parser's trailer.  Types are written as decimal texts since  *)
(* any integer may be given ("0" is LF, "1" is NUL).                        *)
EXTENDS Naturals, Sequences

None == <<>>
Some(x) == <<x>>
Types == {"0", "1"}
Byte(t) == IF t = "0" THEN 10 ELSE 0
Name(t) == IF t = "0" THEN <<76, 70>> ELSE <<78, 85, 76>>

\* --------------------------------------------------------- declarative
Lower(b) == b + 32
Quotes == {<<>>, <<34>>, <<39>>}
\* the ways to write a name: every letter in either case, in no or matching quotes
Cased(w) == {[i \in DOMAIN w |-> IF i \in S THEN Lower(w[i]) ELSE w[i]] : S \in SUBSET DOMAIN w}
TextsOf(t) == {q \o c \o q : q \in Quotes, c \in Cased(Name(t))}

\* --------------------------------------------------------- operational
Upper(b) == IF b \in 97..122 THEN b - 32 ELSE b
Unquoted(s) == IF Len(s) >= 2 /\ s[1] \in {34, 39} /\ s[Len(s)] = s[1] THEN SubSeq(s, 2, Len(s) - 1) ELSE s
FromText(s) == LET w == Unquoted(s)
                   u == [i \in DOMAIN w |-> Upper(w[i])]
               IN IF u = Name("0") THEN Some("0") ELSE IF u = Name("1") THEN Some("1") ELSE None

\* the option: an unknown trailer is ignored
WithTrailer(cur, t) == IF t \in Types THEN t ELSE cur
Default == "0"
RECURSIVE After(_, _, _)
After(cur, ts, k) == IF k > Len(ts) THEN cur ELSE After(WithTrailer(cur, ts[k]), ts, k + 1)
=============================================================================
