---------------------------- MODULE TraceScanner ----------------------------
(* Judges recorded uses of the real token scanner: the bytes of the stream, *)
(* the maximum the scanner was made with, and what each call of Scan gave   *)
(* (the text of the token). A message longer than the maximum may be refused*)
(* as well as delivered. The other traces are names of token types.         *)
EXTENDS Scanner, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, at, st, bad
vars == <<t, i, at, st, bad>>
T == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 1 /\ at = 0 /\ st = InitScan /\ bad = {}
Rest == SubSeq(T.in, at + 1, Len(T.in))
Refusable(x) == x.tok.k = "SYSLOGMSG" /\ Length(st.len) > T.max
EofText == Text(Tok("EOF", <<>>))
\* bad: the first call that did not give what it has to ends the judgement
Call == /\ T.e = "scan" /\ i \in 1..Len(T.toks) /\ UNCHANGED t
        /\ LET x  == Scan(st, Rest)
               ok == T.toks[i] = Text(x.tok)
               no == Refusable(x) /\ T.toks[i] = EofText
           IN IF ok THEN i' = i + 1 /\ at' = at + Len(x.tok.lit) /\ st' = x.st /\ UNCHANGED bad
              ELSE IF no THEN i' = i + 1 /\ UNCHANGED <<at, st, bad>>
              ELSE i' = Len(T.toks) + 1 /\ bad' = {<<"C27", IF x.tok.k = "EOF" THEN "end" ELSE x.tok.k>>} /\ UNCHANGED <<at, st>>
Name == /\ T.e = "name" /\ i = 1 /\ i' = 2 /\ UNCHANGED <<t, at, st>>
        /\ bad' = IF T.name = NameOf(T.n) THEN {} ELSE {<<"C27", "name">>}
Last == IF T.e = "scan" THEN Len(T.toks) ELSE 1
End  == /\ i = Last + 1 /\ i' = 0 /\ UNCHANGED <<t, at, st>>
        /\ bad' = bad \cup (IF T.panic = "" THEN {} ELSE {<<"C27", "panic">>})
Next == Call \/ Name \/ End
Spec == Init /\ [][Next]_vars
Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
