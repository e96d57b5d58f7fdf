--------------------------- MODULE NonTransparent ---------------------------
(* Non-transparent (RFC 6587) stream parsing with a trailer byte tr (LF or  *)
(* NUL): one transition per byte of the stream and one for its end.         *)
(* Emissions are frames to parse and, at most once and last, the tail: the  *)
(* unterminated bytes after the last trailer.                               *)
EXTENDS Bytes, TLC
LOCAL INSTANCE SequencesExt

Eof == 256

\* ------------------------------------------------------------ control
(* head: at the start of the stream; body: in a line; line: at the start of *)
(* a later line; skip, skipbody: the same in a stream not starting with '<' *)
(* (nothing but its tail is looked at); end.                                *)
To(c, acts) == [to |-> c, acts |-> acts]
Ctls == {"head", "line", "body", "skip", "skipbody", "end"}
Delta(c, b, tr) ==
  CASE c = "end"  -> To("end", <<>>)
    [] c = "head" -> IF b = Eof THEN To("end", <<>>)
                     ELSE IF b = LT THEN To("body", <<"cur+">>)
                     ELSE IF b = tr THEN To("skip", <<>>) ELSE To("skipbody", <<"cur+">>)
    [] c = "line" -> IF b = Eof THEN To("end", <<"frame!">>)
                     ELSE IF b = LT THEN To("body", <<"frame!", "cur+">>)
                     ELSE IF b = tr THEN To("line", <<"cur+", "keep">>) ELSE To("body", <<"cur+">>)
    [] c = "body" -> IF b = Eof THEN To("end", <<"frame!", "tail!">>)
                     ELSE IF b = tr THEN To("line", <<"cur+", "keep">>) ELSE To("body", <<"cur+">>)
    [] c = "skip" -> IF b = Eof THEN To("end", <<>>)
                     ELSE IF b = tr THEN To("skip", <<>>) ELSE To("skipbody", <<"cur+">>)
    [] c = "skipbody" -> IF b = Eof THEN To("end", <<"tail!">>)
                         ELSE IF b = tr THEN To("skip", <<"drop">>) ELSE To("skipbody", <<"cur+">>)

\* ---------------------------------------------------------- registers
\* cand: complete lines of the frame being read; cur: the line being read
InitStream == [ctl |-> "head", cand |-> <<>>, cur |-> <<>>, out |-> <<>>, at |-> 0]
Emission(k, in, at) == [k |-> k, in |-> in, at |-> at]
Do(a, st, b) ==
  CASE a = "cur+"   -> [st EXCEPT !.cur = Append(@, b)]
    [] a = "keep"   -> [st EXCEPT !.cand = @ \o st.cur, !.cur = <<>>]
    [] a = "drop"   -> [st EXCEPT !.cur = <<>>]
    [] a = "frame!" -> IF st.cand = <<>> THEN st
                       ELSE [st EXCEPT !.out = Append(@, Emission("parse", SubSeq(st.cand, 1, Len(st.cand) - 1), st.at)), !.cand = <<>>]
    [] a = "tail!"  -> [st EXCEPT !.out = Append(@, Emission("tail", st.cur, st.at)), !.cur = <<>>]
StepStream(st, b, tr) ==
  IF st.ctl = "end" THEN st ELSE
  LET d  == Delta(st.ctl, b, tr)
      s1 == IF b = Eof THEN st ELSE [st EXCEPT !.at = @ + 1]
      s2 == IF Len(d.acts) = 0 THEN s1 ELSE Do(d.acts[1], s1, b)
      s3 == IF Len(d.acts) < 2 THEN s2 ELSE Do(d.acts[2], s2, b)
  IN [s3 EXCEPT !.ctl = d.to]
EmissionsOf(s, tr) ==
  LET F(st, b) == StepStream(st, b, tr) IN StepStream(FoldLeft(F, InitStream, s), Eof, tr).out
\* what s settles, line by line: a frame is due when the line that follows it
\* is complete; at is the end of that line
Settled(s, tr) ==
  LET n == IF \E k \in DOMAIN s : s[k] = tr THEN CHOOSE k \in DOMAIN s : s[k] = tr /\ \A j \in k + 1..Len(s) : s[j] # tr ELSE 0
      F(st, b) == StepStream(st, b, tr)
      es == FoldLeft(F, InitStream, SubSeq(s, 1, n)).out
      EndOfLine(k) == CHOOSE j \in k..n : s[j] = tr /\ \A i \in k..j - 1 : s[i] # tr
  IN [k \in DOMAIN es |-> [es[k] EXCEPT !.at = EndOfLine(@)]]

\* ----------------------------------------------------------- listener
(* verbatim: the outcome of parsing in (in strict mode that is an error     *)
(* alone if it is bad); with: the outcome of parsing in, with the reader's  *)
(* error if it has none                                                     *)
Delivered(es) == LET F(a, e) == Append(a, [k |-> IF e.k = "parse" THEN "verbatim" ELSE "with", in |-> e.in, txt |-> "", at |-> e.at])
                 IN FoldLeft(F, <<>>, es)
\* the streams the properties speak about
Framed(s) == s = <<>> \/ s[1] = LT
=============================================================================
