--------------------------- MODULE Compare3164 -------------------------------
(* How what the real RFC 3164 parsers returned differs from a specified      *)
(* outcome.                                                                 *)
EXTENDS Rfc3164

\* the recorded instant as <<day, second>> of UTC, from its own wall clock and offset
RecUtc(x) == Utc(x.y, x.mo, x.d, x.h, x.mi, x.s, x.off)
TsSame(a, b, opt) == IF a = <<>> \/ b = <<>> THEN a = b
                ELSE LET m == TsMeaning(b[1], opt) IN
                     a[1].ns = 0 /\ RecUtc(a[1]) = m.utc /\ a[1].off = m.off

FieldDiff(m, s, opt) ==
   (IF m.pri = s.pri THEN {} ELSE {"pri"}) \cup
   (IF m.fac = s.fac THEN {} ELSE {"fac"}) \cup
   (IF m.sev = s.sev THEN {} ELSE {"sev"}) \cup
   (IF TsSame(m.ts, s.ts, opt) THEN {} ELSE {"ts"}) \cup
   (IF m.host = s.host THEN {} ELSE {"host"}) \cup
   (IF m.app = s.app THEN {} ELSE {"app"}) \cup
   (IF m.proc = s.proc THEN {} ELSE {"proc"}) \cup
   (IF m.msgid = <<>> THEN {} ELSE {"msgid"}) \cup
   (IF m.msg = s.msg THEN {} ELSE {"msg"})
MsgDiff(m, s, opt) == IF m = <<>> /\ s = <<>> THEN {}
                 ELSE IF m = <<>> THEN {"missing"} ELSE IF s = <<>> THEN {"invented"}
                 ELSE FieldDiff(m[1], s[1], opt)
ErrSame(e, s) == IF e = <<>> \/ s = <<>> THEN e = s
                 ELSE e[1] = ErrText(s[1].kind) \o " [col " \o ToString(s[1].col) \o "]"
=============================================================================
