------------------------------ MODULE Scanner -------------------------------
(* The token scanner octet counting is read with: one transition per call   *)
(* of Scan.  It keeps the last length that has not been used and whether a  *)
(* space followed it; it looks ahead one byte (where a length ends) or as   *)
(* many as the length says (a message is there completely or not at all).   *)
EXTENDS Bytes, Escape, TLC

Eof == 256
Kinds == {"ILLEGAL", "EOF", "WS", "MSGLEN", "SYSLOGMSG"}

\* len: the digits of the pending length, <<>> if there is none
InitScan == [len |-> <<>>, ready |-> FALSE]
Length(lit) == IF Len(lit) > 9 THEN 2000000000 ELSE Num(lit)

\* what kind of token begins with byte b
Kind(pending, ready, b) ==
  CASE b = Eof      -> "EOF"
    [] IsNzDigit(b) -> "MSGLEN"
    [] b = SP       -> "WS"
    [] b = LT /\ pending /\ ready -> "SYSLOGMSG"
    [] OTHER        -> "ILLEGAL"

Tok(k, lit) == [k |-> k, lit |-> lit]
Text(tok) == IF tok.k \in {"WS", "EOF"} THEN tok.k ELSE tok.k \o "(" \o Esc(tok.lit) \o ")"
DigitsOf(w) == SubSeq(w, 1, CHOOSE k \in 0..Len(w) : (\A j \in 1..k : IsDigit(w[j])) /\ (k = Len(w) \/ ~IsDigit(w[k + 1])))

\* the call of Scan when rest is all that is left to read: token and state.
\* A message that is not there completely is the end.
Scan(st, rest) ==
  LET k == Kind(st.len # <<>>, st.ready, IF rest = <<>> THEN Eof ELSE rest[1]) IN
  CASE k = "EOF"     -> [tok |-> Tok("EOF", <<>>), st |-> [st EXCEPT !.ready = FALSE]]
    [] k = "MSGLEN"  -> [tok |-> Tok(k, DigitsOf(rest)), st |-> [len |-> DigitsOf(rest), ready |-> FALSE]]
    [] k = "WS"      -> [tok |-> Tok(k, <<SP>>), st |-> [st EXCEPT !.ready = TRUE]]
    [] k = "ILLEGAL" -> [tok |-> Tok(k, <<rest[1]>>), st |-> st]
    [] k = "SYSLOGMSG" -> IF Length(st.len) <= Len(rest) THEN [tok |-> Tok(k, SubSeq(rest, 1, Length(st.len))), st |-> InitScan]
                          ELSE [tok |-> Tok("EOF", <<>>), st |-> st]

RECURSIVE TokensFrom(_, _)
TokensFrom(st, rest) == LET x == Scan(st, rest) IN
  IF x.tok.k = "EOF" THEN <<x.tok>> ELSE <<x.tok>> \o TokensFrom(x.st, SubSeq(rest, Len(x.tok.lit) + 1, Len(rest)))
Tokens(s) == TokensFrom(InitScan, s)

\* names of the kinds, by number
KindName == <<"ILLEGAL", "EOF", "WS", "MSGLEN", "SYSLOGMSG">>
NameOf(n) == IF n \in 0..4 THEN KindName[n + 1] ELSE "TokenType(" \o ToString(n) \o ")"
=============================================================================
