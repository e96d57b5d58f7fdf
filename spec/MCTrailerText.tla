--------------------------- MODULE MCTrailerText ----------------------------
(* Design check of TrailerText over all texts up to MaxLen bytes, and all   *)
(* short sequences of options.                                              *)
EXTENDS TrailerText
CONSTANT MaxLen
Alphabet == {76, 108, 70, 102, 78, 110, 85, 117, 34, 39, 32, 255}
VARIABLES s, cur, ts
vars == <<s, cur, ts>>
Init == s = <<>> /\ cur = Default /\ ts = <<>>
Write == Len(s) < MaxLen /\ ts = <<>> /\ \E b \in Alphabet : s' = Append(s, b) /\ UNCHANGED <<cur, ts>>
Option == Len(ts) < 4 /\ s = <<>> /\ \E t \in {"0", "1", "2", "10", "-1"} : ts' = Append(ts, t) /\ cur' = WithTrailer(cur, t) /\ UNCHANGED s
Next == Write \/ Option
Spec == Init /\ [][Next]_vars
AcceptsExactly == \A t \in Types : (FromText(s) = Some(t)) <=> (s \in TextsOf(t))
Unambiguous == TextsOf("0") \cap TextsOf("1") = {}
RoundTrip == \A t \in Types : FromText(Name(t)) = Some(t)
KnownTrailer == cur \in Types /\ cur = After(Default, ts, 1)
                /\ (cur = "1" => \E k \in DOMAIN ts : ts[k] = "1" /\ \A j \in DOMAIN ts : j > k => ts[j] # "0")
=============================================================================
