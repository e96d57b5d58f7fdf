------------------------------- MODULE MCOctet -------------------------------
(* Design check of OctetCounting: every stream over a small alphabet is read*)
(* through a buffered reader that fills as it likes (any pieces, empty      *)
(* reads) and ends or fails anywhere; the framing consumes the buffer.  The *)
(* emissions are compared with a declarative definition of frames.          *)
EXTENDS OctetCounting, FiniteSets
LOCAL INSTANCE SequencesExt

LimitDef == <<50>>
CONSTANTS Alphabet, MaxBytes, Limit, Fills

Par == [max |-> Limit, maxtxt |-> Esc(Limit)]
\* a message is bad if it contains the byte x (120)
Bad(p) == \E i \in DOMAIN p : p[i] = 120

\* s: bytes the reader has delivered; buffered: how many of them the framing
\* has not consumed yet; st: its state; over: the reader has ended
VARIABLES s, buffered, st, over
vars == <<s, buffered, st, over>>

Init == s = <<>> /\ buffered = 0 /\ st = InitStream /\ over = FALSE
\* the reader is asked only when the buffer is empty, and may deliver nothing
Fill == /\ ~over /\ buffered = 0 /\ st.ctl # "end"
        /\ \E k \in 0..Fills : \E w \in [1..k -> Alphabet] :
             /\ Len(s) + k <= MaxBytes
             /\ s' = s \o w /\ buffered' = k
        /\ over' \in BOOLEAN              \* data together with the end
        /\ UNCHANGED st
Consume == /\ buffered > 0 /\ st.ctl # "end"
           /\ st' = StepStream(st, s[Len(s) - buffered + 1], Par)
           /\ buffered' = buffered - 1 /\ UNCHANGED <<s, over>>
AtEnd == /\ over /\ buffered = 0 /\ st.ctl # "end"
         /\ st' = StepStream(st, Eof, Par) /\ UNCHANGED <<s, buffered, over>>
Next == Fill \/ Consume \/ AtEnd
Spec == Init /\ [][Next]_vars

Consumed == SubSeq(s, 1, Len(s) - buffered)
Complete == st.ctl = "end" /\ over

\* ---------------------------------------------- declarative definition
IsFrame(w, m) == \E k \in 1..Len(w) :
                   /\ w = SubSeq(w, 1, k) \o <<SP>> \o m
                   /\ \A i \in 1..k : IsDigit(w[i])
                   /\ IsNzDigit(w[1])
                   /\ Len(m) = Num(SubSeq(w, 1, k)) /\ Len(m) <= Num(Limit)
                   /\ m[1] = LT
\* messages of the longest sequence of frames the stream w begins with, and
\* the number of bytes they take
RECURSIVE Decode(_, _)
Decode(w, at) ==
  LET c == {j \in at + 1..Len(w) : \E k \in at + 1..j : IsFrame(SubSeq(w, at + 1, j), SubSeq(w, k, j))} IN
  IF c = {} THEN [ms |-> <<>>, upto |-> at]
  ELSE LET j == CHOOSE j \in c : TRUE
           k == CHOOSE k \in at + 1..j : IsFrame(SubSeq(w, at + 1, j), SubSeq(w, k, j))
           r == Decode(w, j)
       IN [ms |-> <<SubSeq(w, k, j)>> \o r.ms, upto |-> r.upto]

Messages(es) == [i \in 1..Cardinality({i \in DOMAIN es : es[i].k = "parse"}) |-> es[i].in]
Deviant(es)  == {i \in DOMAIN es : es[i].k # "parse"}

\* unique decoding: no two frames begin at the same place
UniqueFrames == \A i \in 1..Len(s) : Cardinality({j \in i..Len(s) : \E k \in i..j : IsFrame(SubSeq(s, i, j), SubSeq(s, k, j))}) <= 1
\* C16: exactly the frames of the consumed bytes, in order, at their end
FramesDelivered == LET d == Decode(Consumed, 0) IN
                   /\ Messages(st.out) = d.ms
                   /\ \A i \in DOMAIN d.ms : st.out[i].at = Decode(SubSeq(Consumed, 1, st.out[i].at), 0).upto
\* C17: one deviation at most, last, and never lost
OneErrorEnds == /\ Cardinality(Deviant(st.out)) <= 1
                /\ \A i \in Deviant(st.out) : i = Len(st.out) /\ st.ctl = "end"
                /\ st.ctl = "end" =>
                     \/ Deviant(st.out) # {}
                     \/ over /\ buffered = 0 /\ s # <<>> /\ Decode(s, 0).upto = Len(s)
\* an end with an error really is a deviation: no continuation mends it, or
\* the stream ended inside a frame
ErrorIsDeviation == Deviant(st.out) # {} =>
                      LET d == Decode(Consumed, 0) IN
                      d.upto < Len(Consumed) \/ Consumed = <<>>
\* C18
MaxRespected == /\ \A i \in DOMAIN st.out : st.out[i].k = "parse" => Len(st.out[i].in) <= Num(Limit)
                /\ \A i \in DOMAIN st.out : st.out[i].k = "toolong" =>
                     LET rest == SubSeq(Consumed, Decode(Consumed, 0).upto + 1, Len(Consumed))
                         nd   == CHOOSE k \in 0..Len(rest) : (\A j \in 1..k : IsDigit(rest[j])) /\ (k = Len(rest) \/ ~IsDigit(rest[k + 1]))
                     IN nd > 0 /\ Num(SubSeq(rest, 1, nd)) > Num(Limit)
                /\ (st.ctl \in {"start", "junk", "message"} => Num(st.lit) <= Num(Limit))
ASSUME \A a \in 1..130 : \A b \in 1..130 :
         LET d(n) == IF n > 99 THEN <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
                     ELSE IF n > 9 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + n>>
         IN TooLong(d(a), d(b)) = (a > b) /\ Num(d(a)) = a
\* C19: best effort recognises the same frames, shows every one and the tail
BestEffortSame == LET b == Delivered(st.out, TRUE, Bad)
                      x == Delivered(st.out, FALSE, Bad)
                  IN /\ Len(b) = Len(st.out)
                     /\ \A i \in DOMAIN b : b[i].in = st.out[i].in
                     /\ Len(x) <= Len(b)
                     /\ \A i \in DOMAIN x : (x[i].k = "verbatim" => x[i] = b[i])
                                            /\ (x[i].k = "error" => i = Len(x) /\ b[i].k = "verbatim" /\ Bad(x[i].in))
                                            /\ (x[i].k \in {"frame", "toolong"} => i = Len(b))
                     /\ (Len(x) < Len(b) => x # <<>> /\ x[Len(x)].k = "error")
TailExact == \A i \in DOMAIN st.out : st.out[i].k = "tail" =>
               LET rest == SubSeq(Consumed, Decode(Consumed, 0).upto + 1, Len(Consumed)) IN
               \E k \in 2..Len(rest) : rest[k] = SP /\ (\A j \in 1..k - 1 : IsDigit(rest[j]))
                  /\ Len(rest) - k >= Len(st.out[i].in) /\ st.out[i].in = SubSeq(rest, k + 1, k + Len(st.out[i].in))
                  /\ Len(st.out[i].in) < Num(SubSeq(rest, 1, k - 1))
                  /\ (st.out[i].in # <<>> /\ st.out[i].in[1] = LT => over /\ k + Len(st.out[i].in) = Len(rest))
\* C20: whatever the fills were, a function of the bytes
ChunkFree == /\ Complete => st.out = EmissionsOf(s, Par)
             /\ LET F(x, b) == StepStream(x, b, Par) IN Complete \/ st = FoldLeft(F, InitStream, Consumed)
=============================================================================
