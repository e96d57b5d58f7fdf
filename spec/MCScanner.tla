----------------------------- MODULE MCScanner ------------------------------
(* Design check of Scanner: all streams over a small alphabet, delivered in *)
(* any pieces; and the octet counting automaton is what the framing rules   *)
(* make of the tokens.                                                      *)
EXTENDS Scanner, FiniteSets
LOCAL INSTANCE SequencesExt
O == INSTANCE OctetCounting
CONSTANTS Alphabet, MaxBytes, Fills

\* s: delivered; over: and that is all; at: bytes used up by tokens
VARIABLES s, over, at, st, toks
vars == <<s, over, at, st, toks>>
Init == s = <<>> /\ over = FALSE /\ at = 0 /\ st = InitScan /\ toks = <<>>
Rest == SubSeq(s, at + 1, Len(s))
\* the token is known: nothing that may come makes it another one
Decided == \/ over
           \/ Rest # <<>> /\ CASE Kind(st.len # <<>>, st.ready, Rest[1]) = "MSGLEN" -> \E k \in DOMAIN Rest : ~IsDigit(Rest[k])
                               [] Kind(st.len # <<>>, st.ready, Rest[1]) = "SYSLOGMSG" -> Len(Rest) >= Length(st.len)
                               [] OTHER -> TRUE
Fill == /\ ~over /\ ~Decided
        /\ \E k \in 0..Fills : \E w \in [1..k -> Alphabet] : Len(s) + k <= MaxBytes /\ s' = s \o w
        /\ over' \in BOOLEAN /\ UNCHANGED <<at, st, toks>>
Ended == Cardinality({k \in DOMAIN toks : toks[k].k = "EOF"})
Call == /\ Decided /\ Ended < 2
        /\ LET x == Scan(st, Rest) IN toks' = Append(toks, x.tok) /\ st' = x.st /\ at' = at + Len(x.tok.lit)
        /\ UNCHANGED <<s, over>>
Next == Fill \/ Call
Spec == Init /\ [][Next]_vars

Lits == FlattenSeq([k \in DOMAIN toks |-> toks[k].lit])
Lossless == Lits = SubSeq(s, 1, at)
\* every message has the length announced last, once, after a space
Announced == \A k \in DOMAIN toks : toks[k].k = "SYSLOGMSG" =>
   \E j \in 1..k - 1 : /\ toks[j].k = "MSGLEN" /\ Len(toks[k].lit) = Num(toks[j].lit) /\ toks[k].lit[1] = LT
                       /\ \A i \in j + 1..k - 1 : toks[i].k \in {"WS", "ILLEGAL"}
                       /\ \E i \in j + 1..k - 1 : toks[i].k = "WS"
\* a length is a whole run of digits without a leading zero
WholeNumber == \A k \in DOMAIN toks : toks[k].k = "MSGLEN" =>
   /\ IsNzDigit(toks[k].lit[1]) /\ \A i \in DOMAIN toks[k].lit : IsDigit(toks[k].lit[i])
   /\ (k < Len(toks) /\ toks[k + 1].lit # <<>> => ~IsDigit(toks[k + 1].lit[1]))
OneByte == \A k \in DOMAIN toks : /\ (toks[k].k = "WS" => toks[k].lit = <<SP>>)
                                  /\ (toks[k].k = "ILLEGAL" => Len(toks[k].lit) = 1 /\ toks[k].lit[1] # SP /\ ~IsNzDigit(toks[k].lit[1]))
Sticky == \A k \in DOMAIN toks : toks[k].k = "EOF" => over /\ \A j \in k..Len(toks) : toks[j].k = "EOF"
ChunkFree == Ended > 0 => SubSeq(toks, 1, Len(toks) - Ended + 1) = Tokens(s)
\* nothing is left behind but a message that is not complete
AllRead == Ended > 0 => \/ at = Len(s)
                        \/ Rest[1] = LT /\ st.len # <<>> /\ Length(st.len) > Len(Rest)

\* ------------------------------- the octet counting framing over the tokens
Limit == <<50>>
T(w, k) == IF k <= Len(w) THEN w[k] ELSE Tok("EOF", <<>>)
E(k, in, txt) == [k |-> k, in |-> in, txt |-> txt]
RECURSIVE Frames(_, _, _)
\* w: tokens; left: what the last one (EOF) leaves unread
Frames(w, k, left) ==
  LET a == T(w, k) b == T(w, k + 1) m == T(w, k + 2)
      in  == IF m.k = "EOF" THEN left ELSE m.lit
      got == IF m.k \in {"EOF", "WS"} THEN m.k ELSE Text(m)
      txt == "found " \o got \o " after \"" \o Esc(in) \o "\", expecting a SYSLOGMSG containing " \o Esc(a.lit) \o " octets"
  IN IF a.k # "MSGLEN" THEN <<E("frame", <<>>, "found " \o Text(a) \o ", expecting a MSGLEN")>>
     ELSE IF O!TooLong(a.lit, Limit) THEN <<E("toolong", <<>>, O!TooLongText(a.lit, "2"))>>
     ELSE IF b.k # "WS" THEN <<E("frame", <<>>, "found " \o Text(b) \o ", expecting a WS")>>
     ELSE IF m.k # "SYSLOGMSG" THEN <<IF Len(in) < Num(a.lit) THEN E("tail", in, txt) ELSE E("frame", <<>>, txt)>>
     ELSE <<E("parse", m.lit, "")>> \o IF T(w, k + 3).k = "EOF" THEN <<>> ELSE Frames(w, k + 3, left)
FramingAgrees == Ended > 0 =>
   LET es == O!EmissionsOf(s, [max |-> Limit, maxtxt |-> "2"]) IN
   [k \in DOMAIN es |-> E(es[k].k, es[k].in, es[k].txt)] = Frames(toks, 1, Rest)
=============================================================================
