----------------------------- MODULE MCHelpers ------------------------------
(* Design check of Helpers over all values up to MaxLen bytes, all          *)
(* ascending lists of positions in them and several offsets.                *)
EXTENDS Helpers
CONSTANT MaxLen
Alphabet == {92, 93, 34, 97, 200}
VARIABLES s, ps, off, num
vars == <<s, ps, off, num>>
Init == s = <<>> /\ ps = <<>> /\ off \in {0, 3} /\ num = <<>>
Write == Len(s) < MaxLen /\ ps = <<>> /\ num = <<>> /\ \E b \in Alphabet : s' = Append(s, b) /\ UNCHANGED <<ps, off, num>>
Point == /\ num = <<>> /\ \E p \in off..(off + Len(s) - 1) : (IF ps = <<>> THEN TRUE ELSE p > ps[Len(ps)]) /\ ps' = Append(ps, p)
         /\ UNCHANGED <<s, off, num>>
Count == Len(num) < 4 /\ s = <<>> /\ \E b \in {48, 49, 55, 57} : num' = Append(num, b) /\ UNCHANGED <<s, ps, off>>
Next == Write \/ Point \/ Count
Spec == Init /\ [][Next]_vars
RemovesExactly == TakeOut(s, ps, off, 1) = Without(s, ps, off)
EscapesExactly == Escaped(s, Escape(s))
EscapeInverse  == Unescape(Escape(s)) = s
EscapeRemove   == Without(Escape(s), Added(s, off), off) = s
\* the escaped text ends no parameter value early
NoBareQuote    == LET w == Escape(s) IN
                  \A i \in DOMAIN w : w[i] \in {34, 93} => i > 1 /\ w[i - 1] = 92
Decimal        == Dec(num) = Dec(Canon(num)) /\ (num # <<>> => \A b \in Digits : Dec(Append(num, b)) = 10 * Dec(num) + b - 48)
=============================================================================
