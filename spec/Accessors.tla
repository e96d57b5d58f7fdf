----------------------------- MODULE Accessors ------------------------------
(* A message's priority and version, the operations that change them and    *)
(* what the accessors have to answer.  The names are those of RFC 5427 (and *)
(* RFC 5424), indexed by code; where two standard names are in use (facility*)
(* 13 is "audit" in RFC 5427 and "security" in the BSD headers) either will *)
(* do.                                                                      *)
EXTENDS Naturals, Integers, Sequences

None == <<>>
Some(x) == <<x>>

FacilityName == <<
  {"kernel messages"}, {"user-level messages"}, {"mail system messages"}, {"system daemons messages"}, {"authorization messages"},
  {"messages generated internally by syslogd"}, {"line printer subsystem messages"}, {"network news subsystem messages"},
  {"UUCP subsystem messages"}, {"clock daemon messages"}, {"security/authorization messages"}, {"ftp daemon messages"},
  {"NTP subsystem messages"}, {"audit messages"}, {"console messages"}, {"clock daemon messages"}, {"local use 0 (local0)"},
  {"local use 1 (local1)"}, {"local use 2 (local2)"}, {"local use 3 (local3)"}, {"local use 4 (local4)"}, {"local use 5 (local5)"},
  {"local use 6 (local6)"}, {"local use 7 (local7)"} >>
FacilityKeyword == <<
  {"kern"}, {"user"}, {"mail"}, {"daemon"}, {"auth"}, {"syslog"}, {"lpr"}, {"news"}, {"uucp"}, {"cron"}, {"authpriv"}, {"ftp"}, {"ntp"},
  {"security", "audit"}, {"console"}, {"cron2"}, {"local0"}, {"local1"}, {"local2"}, {"local3"}, {"local4"}, {"local5"}, {"local6"}, {"local7"} >>
SeverityName == <<
  {"system is unusable"}, {"action must be taken immediately"}, {"critical conditions"}, {"error conditions"}, {"warning conditions"},
  {"normal but significant condition"}, {"informational messages"}, {"debug-level messages"} >>
SeverityKeyword == << {"emergency"}, {"alert"}, {"critical"}, {"error"}, {"warning"}, {"notice"}, {"informational"}, {"debug"} >>
SeverityShort == << {"emerg"}, {"alert"}, {"crit"}, {"err"}, {"warning"}, {"notice"}, {"info"}, {"debug"} >>

\* ------------------------------------------------------------ operations
\* kind: "5424" messages have a version, "3164" and "base" ones do not
\* facility and severity come from the priority, until a program assigns the
\* fields on its own ("rawfac", "rawsev", "rawpri"; <<>> for nil)
New(kind) == [kind |-> kind, pri |-> None, ver |-> 0, fac |-> None, sev |-> None]
\* a priority above 191 has no facility and severity: 255 stands for not said
WithPri(m, p) == [m EXCEPT !.pri = Some(p), !.fac = Some(IF p <= 191 THEN p \div 8 ELSE 255), !.sev = Some(IF p <= 191 THEN p % 8 ELSE 255)]
Do(m, o) ==
  CASE o.op = "new"      -> New(o.kind)
    [] o.op = "parsed"   -> [WithPri(New(o.kind), o.p) EXCEPT !.ver = o.v]
    [] o.op = "compute"  -> WithPri(m, o.p)
    [] o.op = "priority" -> IF o.p \in 0..191 THEN WithPri(m, o.p) ELSE m
    [] o.op = "version"  -> IF o.v \in 1..999 THEN [m EXCEPT !.ver = o.v] ELSE m
    [] o.op = "rawversion" -> [m EXCEPT !.ver = o.v]
    [] o.op = "rawfac"   -> [m EXCEPT !.fac = o.o]
    [] o.op = "rawsev"   -> [m EXCEPT !.sev = o.o]
    [] o.op = "rawpri"   -> [m EXCEPT !.pri = o.o]
    [] o.op = "scribble" -> m      \* over what accessors returned

\* ------------------------------------------------------------ accessors
HasPri(m)   == m.pri # None
Standard(m) == HasPri(m) /\ m.pri[1] \in 0..191
StdFac(m) == m.fac # None /\ m.fac[1] \in 0..23
StdSev(m) == m.sev # None /\ m.sev[1] \in 0..7
Valid(m) == Standard(m) /\ (m.kind = "5424" => m.ver \in 1..999)
\* admissible answers of the five text accessors: {} for nil; of codes no standard names nothing is said
FacAnswers(m) == [fm |-> FacilityName[m.fac[1] + 1], fl |-> FacilityKeyword[m.fac[1] + 1]]
SevAnswers(m) == [sm |-> SeverityName[m.sev[1] + 1], sl |-> SeverityKeyword[m.sev[1] + 1], ss |-> SeverityShort[m.sev[1] + 1]]
=============================================================================
