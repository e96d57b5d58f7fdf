--------------------------- MODULE OctetCounting ----------------------------
(* Octet counting (RFC 5425) stream parsing: the state of the framing, one  *)
(* transition per byte of the stream and one for its end (the end of the    *)
(* reader or its failure: framing does not tell them apart).                *)
(*                                                                          *)
(* What parsing a message yields is not defined here.  The framing emits:   *)
(*   parse: a frame with the message "in"                                   *)
(*   frame: the framing error txt                                           *)
(*   tail:  the framing error txt, where "in" was found in the place of a   *)
(*          longer message                                                  *)
(* and Delivered says what the listener gets to see of it in each mode.     *)
EXTENDS Bytes, Escape, TLC
LOCAL INSTANCE SequencesExt

Eof == 256

\* a maximum is the sequence of its digits; <<>> stands for a negative one
Shorter(a, b) == \/ Len(a) < Len(b)
                 \/ /\ Len(a) = Len(b)
                    /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
TooLong(lit, max) == max = <<>> \/ Shorter(max, lit)

\* lengths of ten digits and more exceed every stream considered
Length(lit) == IF Len(lit) > 9 THEN 2000000000 ELSE Num(lit)

\* ------------------------------------------------------------ control
(* first: MSGLEN required; next: MSGLEN or the end; digits: in the MSGLEN;  *)
(* start: the message must begin here; junk: digits in its place; message.  *)
(* g: in digits, the MSGLEN exceeds the maximum; in start and message, this *)
(* byte is the last one of the message.                                     *)
Ctls == {"first", "next", "digits", "start", "junk", "message", "end"}
To(c, acts) == [to |-> c, acts |-> acts]
Delta(c, b, g) ==
  CASE c = "end"   -> To("end", <<>>)
    [] c = "next" /\ b = Eof -> To("end", <<>>)
    [] c \in {"first", "next"} -> IF IsNzDigit(b) THEN To("digits", <<"lit+">>) ELSE To("end", <<"nolen">>)
    [] c = "digits" -> IF IsDigit(b) THEN To("digits", <<"lit+">>)
                       ELSE IF g THEN To("end", <<"toolong">>)
                       ELSE IF b = SP THEN To("start", <<"len!">>)
                       ELSE To("end", <<"nows">>)
    [] c = "start"  -> IF b = LT THEN (IF g THEN To("next", <<"buf+", "msg!">>) ELSE To("message", <<"buf+">>))
                       ELSE IF IsNzDigit(b) THEN To("junk", <<"buf+">>)
                       ELSE To("end", <<"nomsg">>)
    [] c = "junk"   -> IF IsDigit(b) THEN To("junk", <<"buf+">>) ELSE To("end", <<"nomsg">>)
    [] c = "message" -> IF b = Eof THEN To("end", <<"nomsg">>)
                        ELSE IF g THEN To("next", <<"buf+", "msg!">>) ELSE To("message", <<"buf+">>)

\* ---------------------------------------------------------- registers
(* lit: the digits of the MSGLEN; n: its value; buf: the message, or what   *)
(* was found in its place; out: emissions, each with the number of bytes    *)
(* consumed by then                                                         *)
InitStream == [ctl |-> "first", lit |-> <<>>, n |-> 0, buf |-> <<>>, out |-> <<>>, at |-> 0]
Emission(k, in, txt, at) == [k |-> k, in |-> in, txt |-> txt, at |-> at]

Token(b) == IF b = Eof THEN "EOF" ELSE IF b = SP THEN "WS" ELSE "ILLEGAL(" \o EscByte(b) \o ")"
Lit(b)   == IF b = Eof THEN <<>> ELSE <<b>>
NoMsg(st, b) ==
  LET in  == IF st.ctl = "start" THEN Lit(b) ELSE st.buf
      tok == IF st.ctl = "junk" THEN "MSGLEN(" \o Esc(st.buf) \o ")" ELSE Token(b)
      txt == "found " \o tok \o " after \"" \o Esc(in) \o "\", expecting a SYSLOGMSG containing " \o Esc(st.lit) \o " octets"
  IN IF Len(in) < st.n THEN Emission("tail", in, txt, st.at) ELSE Emission("frame", <<>>, txt, st.at)
TooLongText(lit, maxtxt) == "message too long to parse. was size " \o Esc(lit) \o ", max length " \o maxtxt

Do(a, st, b, maxtxt) ==
  LET emit(e) == [st EXCEPT !.out = Append(@, e)] IN
  CASE a = "lit+"    -> [st EXCEPT !.lit = Append(@, b)]
    [] a = "len!"    -> [st EXCEPT !.n = Length(st.lit)]
    [] a = "buf+"    -> [st EXCEPT !.buf = Append(@, b)]
    [] a = "msg!"    -> [emit(Emission("parse", st.buf, "", st.at)) EXCEPT !.buf = <<>>, !.lit = <<>>, !.n = 0]
    [] a = "nolen"   -> emit(Emission("frame", <<>>, "found " \o Token(b) \o ", expecting a MSGLEN", st.at))
    [] a = "nows"    -> emit(Emission("frame", <<>>, "found " \o Token(b) \o ", expecting a WS", st.at))
    [] a = "toolong" -> emit(Emission("toolong", <<>>, TooLongText(st.lit, maxtxt), st.at))
    [] a = "nomsg"   -> emit(NoMsg(st, b))

Guard(st, max) == CASE st.ctl = "digits" -> TooLong(st.lit, max)
                    [] st.ctl \in {"start", "message"} -> Len(st.buf) + 1 = st.n
                    [] OTHER -> FALSE
\* par: [max, maxtxt]
StepStream(st, b, par) ==
  IF st.ctl = "end" THEN st ELSE
  LET d  == Delta(st.ctl, b, Guard(st, par.max))
      s1 == IF b = Eof THEN st ELSE [st EXCEPT !.at = @ + 1]
      s2 == IF Len(d.acts) = 0 THEN s1 ELSE Do(d.acts[1], s1, b, par.maxtxt)
      s3 == IF Len(d.acts) < 2 THEN s2 ELSE Do(d.acts[2], s2, b, par.maxtxt)
  IN [s3 EXCEPT !.ctl = d.to]
EmissionsOf(s, par) ==
  LET F(st, b) == StepStream(st, b, par) IN StepStream(FoldLeft(F, InitStream, s), Eof, par).out
\* what s settles whatever follows it: due without another byte
Settled(s, par) == LET F(st, b) == StepStream(st, b, par) IN FoldLeft(F, InitStream, s).out
\* the number of bytes after which the framing has ended; 0: it goes on
EndsAt(s, par) == LET F(st, b) == StepStream(st, b, par) e == FoldLeft(F, InitStream, s) IN IF e.ctl = "end" THEN e.at ELSE 0

\* ----------------------------------------------------------- listener
(* Results: [k, in, txt]: verbatim: the outcome of parsing in; error: its   *)
(* error alone; frame: the error txt alone; with: the outcome of parsing    *)
(* in, with the error txt if it has none.                                   *)
Res(k, in, txt, at) == [k |-> k, in |-> in, txt |-> txt, at |-> at]
Delivered(es, be, Bad(_)) ==
  LET Show(e) == CASE e.k = "parse" -> Res(IF ~be /\ Bad(e.in) THEN "error" ELSE "verbatim", e.in, "", e.at)
                   [] e.k = "tail" /\ be -> Res("with", e.in, e.txt, e.at)
                   [] e.k = "toolong" -> Res("toolong", <<>>, e.txt, e.at)
                   [] OTHER -> Res("frame", <<>>, e.txt, e.at)
      F(a, e) == IF a # <<>> /\ a[Len(a)].k = "error" THEN a ELSE Append(a, Show(e))
  IN FoldLeft(F, <<>>, es)
=============================================================================
