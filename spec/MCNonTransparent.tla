-------------------------- MODULE MCNonTransparent --------------------------
(* Design check of NonTransparent: every stream over a small alphabet, read *)
(* in any pieces and ending or failing anywhere, against a declarative      *)
(* definition of frames and tail.                                           *)
EXTENDS NonTransparent, FiniteSets
LOCAL INSTANCE SequencesExt

CONSTANTS Alphabet, MaxBytes, Fills

VARIABLES s, buffered, st, over, tr
vars == <<s, buffered, st, over, tr>>

Init == s = <<>> /\ buffered = 0 /\ st = InitStream /\ over = FALSE /\ tr \in {LF, NUL}
Fill == /\ ~over /\ buffered = 0 /\ st.ctl # "end"
        /\ \E k \in 0..Fills : \E w \in [1..k -> Alphabet] :
             /\ Len(s) + k <= MaxBytes
             /\ s' = s \o w /\ buffered' = k
        /\ over' \in BOOLEAN
        /\ UNCHANGED <<st, tr>>
Consume == /\ buffered > 0 /\ st.ctl # "end"
           /\ st' = StepStream(st, s[Len(s) - buffered + 1], tr)
           /\ buffered' = buffered - 1 /\ UNCHANGED <<s, over, tr>>
AtEnd == /\ over /\ buffered = 0 /\ st.ctl # "end"
         /\ st' = StepStream(st, Eof, tr) /\ UNCHANGED <<s, buffered, over, tr>>
Next == Fill \/ Consume \/ AtEnd
Spec == Init /\ [][Next]_vars

Consumed == SubSeq(s, 1, Len(s) - buffered)

\* ---------------------------------------------- declarative definition
LastTrailer(w) == IF \E i \in DOMAIN w : w[i] = tr THEN CHOOSE i \in DOMAIN w : w[i] = tr /\ \A j \in i + 1..Len(w) : w[j] # tr ELSE 0
Cuts(w) == {i \in 1..LastTrailer(w) : w[i] = tr /\ (i = LastTrailer(w) \/ w[i + 1] = LT)}
RECURSIVE Pieces(_, _, _)
Pieces(w, at, cuts) == IF cuts = {} THEN <<>>
                       ELSE LET c == CHOOSE c \in cuts : \A d \in cuts : c <= d
                            IN <<SubSeq(w, at + 1, c - 1)>> \o Pieces(w, c, cuts \ {c})
Frames(w) == Pieces(w, 0, Cuts(w))
Tail0(w)  == SubSeq(w, LastTrailer(w) + 1, Len(w))

Of(es, k) == LET F(a, e) == IF e.k = k THEN Append(a, e.in) ELSE a IN FoldLeft(F, <<>>, es)

\* C21, at the end of the stream; before it, the frames followed by another
FramesDelivered == Framed(s) /\ s # <<>> =>
  LET fs == Frames(Consumed) IN
  IF st.ctl = "end" THEN Of(st.out, "parse") = fs
  ELSE \E k \in 0..Len(fs) : k >= Len(fs) - 1 /\ Of(st.out, "parse") = SubSeq(fs, 1, k)
\* a trailer not followed by '<' is part of the frame
InnerTrailers == \A i \in DOMAIN st.out : st.out[i].k = "parse" =>
  \A j \in DOMAIN st.out[i].in : st.out[i].in[j] = tr => j = Len(st.out[i].in) \/ st.out[i].in[j + 1] # LT
\* C22
TailOnce == /\ (st.ctl = "end" => Of(st.out, "tail") = IF Tail0(s) = <<>> THEN <<>> ELSE <<Tail0(s)>>)
            /\ (st.ctl # "end" => Of(st.out, "tail") = <<>>)
            /\ \A i \in DOMAIN st.out : st.out[i].k = "tail" => i = Len(st.out)
\* nothing lost: frames, their trailers and the tail make up the stream
Whole == st.ctl = "end" /\ Framed(s) =>
  LET F(a, e) == a \o e.in \o (IF e.k = "parse" THEN <<tr>> ELSE <<>>) IN FoldLeft(F, <<>>, st.out) = s
\* C20
ChunkFree == /\ st.ctl = "end" => st.out = EmissionsOf(s, tr)
             /\ st.ctl # "end" => LET F(x, b) == StepStream(x, b, tr) IN st = FoldLeft(F, InitStream, Consumed)
=============================================================================
