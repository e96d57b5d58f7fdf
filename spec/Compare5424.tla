--------------------------- MODULE Compare5424 -------------------------------
(* How what the real RFC 5424 parsers returned differs from a specified      *)
(* outcome.                                                                 *)
EXTENDS Rfc5424

SdFun(list) == [id \in {list[k].id : k \in DOMAIN list} |->
                 LET ps == (CHOOSE k \in DOMAIN list : list[k].id = id) IN
                 [nm \in {list[ps].ps[j].n : j \in DOMAIN list[ps].ps} |->
                   list[ps].ps[CHOOSE j \in DOMAIN list[ps].ps : list[ps].ps[j].n = nm].v]]
TsSame(a, b) == IF a = <<>> \/ b = <<>> THEN a = b
                ELSE LET x == a[1] y == b[1] IN
                  /\ x.y = y.y /\ x.mo = y.mo /\ x.d = y.d /\ x.h = y.h /\ x.mi = y.mi /\ x.s = y.s
                  /\ x.ns = 1000 * y.us /\ x.off = 60 * y.off
SdSame(a, b) == IF a = <<>> \/ b = <<>> THEN a = b ELSE SdFun(a[1]) = b[1]

\* names of the fields of recorded message m that differ from specified message s
FieldDiff(m, s) ==
   (IF m.pri = s.pri THEN {} ELSE {"pri"}) \cup
   (IF m.fac = s.fac THEN {} ELSE {"fac"}) \cup
   (IF m.sev = s.sev THEN {} ELSE {"sev"}) \cup
   (IF m.ver = s.ver THEN {} ELSE {"ver"}) \cup
   (IF TsSame(m.ts, s.ts) THEN {} ELSE {"ts"}) \cup
   (IF m.host = s.host THEN {} ELSE {"host"}) \cup
   (IF m.app = s.app THEN {} ELSE {"app"}) \cup
   (IF m.proc = s.proc THEN {} ELSE {"proc"}) \cup
   (IF m.msgid = s.msgid THEN {} ELSE {"msgid"}) \cup
   (IF SdSame(m.sd, s.sd) THEN {} ELSE {"sd"}) \cup
   (IF m.msg = s.msg THEN {} ELSE {"msg"})

MsgDiff(m, s) == IF m = <<>> /\ s = <<>> THEN {}
                 ELSE IF m = <<>> THEN {"missing"} ELSE IF s = <<>> THEN {"invented"}
                 ELSE FieldDiff(m[1], s[1])
ErrSame(e, s) == IF e = <<>> \/ s = <<>> THEN e = s
                 ELSE e[1] = ErrText(s[1].kind) \o " [col " \o ToString(s[1].col) \o "]"
=============================================================================
