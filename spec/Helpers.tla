------------------------------ MODULE Helpers -------------------------------
(* The exported helpers of package common: decimal texts, escaping of       *)
(* parameter values, removing bytes at positions, ranges.                   *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

\* ------------------------------------------------------------- declarative
Digits == 48..57
\* numbers as digit sequences without leading zeros: TLC's integers end at 2^31
RECURSIVE Canon(_)
Canon(w) == IF Len(w) > 1 /\ w[1] = 48 THEN Canon(Tail(w)) ELSE IF w = <<>> THEN <<48>> ELSE w

Special == {92, 93, 34}                     \* \ ] "
Escaped(s, w) ==                            \* w is s with a backslash before every special byte, and nothing else
  LET n == Len(s)
      \* where byte k of s is in w
      At(k) == k + Cardinality({j \in 1..k : s[j] \in Special})
  IN /\ Len(w) = IF n = 0 THEN 0 ELSE At(n)
     /\ \A k \in 1..n : w[At(k)] = s[k] /\ (s[k] \in Special => w[At(k) - 1] = 92)
     /\ \A i \in DOMAIN w : (\E k \in 1..n : At(k) = i) \/ (\E k \in 1..n : At(k) = i + 1 /\ s[k] \in Special)

\* what is left of d (its first byte counted as off) without the bytes at ps
Without(d, ps, off) == LET keep == SelectSeq([i \in DOMAIN d |-> i], LAMBDA i : \A k \in DOMAIN ps : ps[k] # off + i - 1)
                       IN [i \in DOMAIN keep |-> d[keep[i]]]
Within(v, lo, hi) == v \in lo..hi

\* ------------------------------------------------------------- operational
Dec(w) == FoldLeft(LAMBDA n, b : 10 * n + (b - 48), 0, w)
Escape(s) == FoldLeft(LAMBDA o, b : IF b \in Special THEN o \o <<92, b>> ELSE Append(o, b), <<>>, s)
Unescape(w) == FoldLeft(LAMBDA a, b : IF ~a.esc /\ b = 92 THEN [a EXCEPT !.esc = TRUE] ELSE [out |-> Append(a.out, b), esc |-> FALSE],
                        [out |-> <<>>, esc |-> FALSE], w).out
\* where the backslashes added by Escape are, counted from off
Added(s, off) == FoldLeft(LAMBDA a, b : IF b \in Special THEN [ps |-> Append(a.ps, a.at), at |-> a.at + 2] ELSE [a EXCEPT !.at = @ + 1],
                          [ps |-> <<>>, at |-> off], s).ps
\* one after the other, each from what the ones before have left
RECURSIVE TakeOut(_, _, _, _)
TakeOut(d, ps, off, i) == IF i > Len(ps) THEN d
                         ELSE LET at == ps[i] - (i - 1) - off IN TakeOut(SubSeq(d, 1, at) \o SubSeq(d, at + 2, Len(d)), ps, off, i + 1)
=============================================================================
