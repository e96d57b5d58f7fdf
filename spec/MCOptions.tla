----------------------------- MODULE MCOptions ------------------------------
(* Design check of Options: two parser objects made with any sequences of   *)
(* options up to a length, and switched to best effort in between.          *)
EXTENDS Options, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
CONSTANTS MaxOpts
All == {[o |-> f, v |-> <<>>] : f \in Flags} \cup {[o |-> "year", v |-> <<n>>] : n \in {2020, 1999}}
       \cup {[o |-> z, v |-> v] : z \in {"loc", "zone"}, v \in {<<>>, <<3600>>}}
VARIABLES xs, ys, on   \* options given to the two objects so far; switched on later
vars == <<xs, ys, on>>
Init == xs = <<>> /\ ys = <<>> /\ on = FALSE
Next == \/ ~on /\ Len(xs) + Len(ys) < MaxOpts /\ \E x \in All : xs' = Append(xs, x) /\ UNCHANGED <<ys, on>>
        \/ ~on /\ Len(xs) + Len(ys) < MaxOpts /\ \E y \in All : ys' = Append(ys, y) /\ UNCHANGED <<xs, on>>
        \/ ~on /\ on' = TRUE /\ UNCHANGED <<xs, ys>>
Spec == Init /\ [][Next]_vars

P(w) == IF on THEN SwitchOn(New("x", w)) ELSE New("x", w)
\* declarative: a flag is set iff it was given; a value is the last one given
Given(w, n) == {k \in DOMAIN w : w[k].o = n}
LastV(w, n)  == w[CHOOSE k \in Given(w, n) : \A j \in Given(w, n) : j <= k].v
Declared(w) == [be |-> Given(w, "be") # {}, cmp |-> Given(w, "cmp") # {}, rfc |-> Given(w, "rfc") # {},
                year |-> IF Given(w, "year") = {} THEN <<0>> ELSE LastV(w, "year"),
                loc |-> IF Given(w, "loc") = {} THEN <<>> ELSE LastV(w, "loc"),
                zone |-> IF Given(w, "zone") = {} THEN <<>> ELSE LastV(w, "zone")]
DeclaredMeaning == Meaning(xs) = Declared(xs)
\* options with different names commute, repeating one changes nothing
OrderFree == /\ \A k \in 1..Len(xs) - 1 : xs[k].o # xs[k + 1].o =>
                    Meaning(xs) = Meaning([i \in DOMAIN xs |-> IF i = k THEN xs[k + 1] ELSE IF i = k + 1 THEN xs[k] ELSE xs[i]])
             /\ xs # <<>> => Meaning(Append(xs, xs[Len(xs)])) = Meaning(xs)
\* switching on later is the same as the option, whatever else was given
LateIsEarly == on => P(xs) = New("x", Append(xs, [o |-> "be", v |-> <<>>])) /\ HasBestEffort(P(xs))
ModeKnown == HasBestEffort(P(xs)) <=> (on \/ \E k \in DOMAIN xs : xs[k].o = "be")
\* only what was given differs from the defaults
OnlyGiven == \A f \in DOMAIN Defaults : Meaning(ys)[f] # Defaults[f] => Given(ys, f) # {}
=============================================================================
