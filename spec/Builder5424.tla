---------------------------- MODULE Builder5424 -----------------------------
(* The RFC 5424 message builder: the abstract message, one operation per    *)
(* setter, and serialisation.  A value conforms to a field exactly if the   *)
(* parser of Rfc5424, standing at the start of that field, would read it    *)
(* entirely and end the field at its terminator; Builder reuses those       *)
(* transitions, MCBuilder compares them with the declarative grammar.       *)
EXTENDS Rfc5424
LOCAL INSTANCE SequencesExt

Fields == {"timestamp", "hostname", "appname", "procid", "msgid", "sdid", "sdpn", "sdpv"}
Entry(f) ==
  CASE f = "timestamp" -> [from |-> C("ts"), in |-> TsPhases \ {"tsNil"}, end |-> SP]
    [] f = "hostname"  -> [from |-> C("host"), in |-> {"host"}, end |-> SP]
    [] f = "appname"   -> [from |-> C("app"), in |-> {"app"}, end |-> SP]
    [] f = "procid"    -> [from |-> C("proc"), in |-> {"proc"}, end |-> SP]
    [] f = "msgid"     -> [from |-> C("msgid"), in |-> {"msgid"}, end |-> SP]
    [] f = "sdid"      -> [from |-> C("id"), in |-> {"id"}, end |-> RSB]
    [] f = "sdpn"      -> [from |-> C("pn"), in |-> {"pn"}, end |-> EQ]
    [] f = "sdpv"      -> [from |-> C("val"), in |-> {"val", "valU", "esc"}, end |-> DQ]

\* final registers of reading v as field f; None if it does not conform
Field(f, v) ==
  LET e == Entry(f)
      F(st, b) == LET x == Step(st, b, FALSE) IN IF x.ctl[1] \in e.in THEN x ELSE [x EXCEPT !.ctl = Fail("field")]
      y == FoldLeft(F, [ctl |-> e.from, regs |-> InitRegs, col |-> 0], v)
      z == Step(y, e.end, FALSE)
  IN IF IsFail(z.ctl) \/ z.ctl[1] \in e.in THEN None ELSE Some(z.regs)
Conforms(f, v) == Field(f, v) # None

\* ------------------------------------------------------------- messages
Blank == [pri |-> None, ver |-> 0, ts |-> None, host |-> None, app |-> None, proc |-> None, msgid |-> None,
          sd |-> None, msg |-> None]
\* what a parser returned, as a builder message
OfParsed(m) == [pri |-> Some(m.pri), ver |-> m.ver, ts |-> m.ts, host |-> m.host, app |-> m.app, proc |-> m.proc,
                msgid |-> m.msgid, sd |-> m.sd, msg |-> m.msg]
IsValid(m) == m.pri # None /\ m.ver \in 1..999

SdOf(m) == IF m.sd = None THEN NoFun ELSE m.sd[1]
AddElement(m, id) ==
  IF Conforms("sdid", id) /\ id \notin DOMAIN SdOf(m) THEN [m EXCEPT !.sd = Some((id :> NoFun) @@ SdOf(m))] ELSE m
AddParam(m, id, name, v) ==
  LET m1 == AddElement(m, id)
      el == SdOf(m1)[id]
      x  == Field("sdpv", v)
  IN IF id \notin DOMAIN SdOf(m1) THEN m1
     ELSE IF ~Conforms("sdpn", name) \/ name \in DOMAIN el THEN m1
     ELSE [m1 EXCEPT !.sd = Some([SdOf(m1) EXCEPT ![id] = (name :> (IF x = None THEN <<>> ELSE x[1].pval)) @@ el])]

Text(f, v, old) == IF Conforms(f, v) /\ v # <<DASH>> THEN Some(v) ELSE old
Do(m, o) ==
  CASE o.op = "priority"  -> IF o.n \in 0..191 THEN [m EXCEPT !.pri = Some(o.n)] ELSE m
    [] o.op = "version"   -> IF o.n \in 1..999 THEN [m EXCEPT !.ver = o.n] ELSE m
    [] o.op = "timestamp" -> LET x == Field("timestamp", o.v) IN IF x = None THEN m ELSE [m EXCEPT !.ts = x[1].ts]
    [] o.op = "hostname"  -> [m EXCEPT !.host = Text("hostname", o.v, @)]
    [] o.op = "appname"   -> [m EXCEPT !.app = Text("appname", o.v, @)]
    [] o.op = "procid"    -> [m EXCEPT !.proc = Text("procid", o.v, @)]
    [] o.op = "msgid"     -> [m EXCEPT !.msgid = Text("msgid", o.v, @)]
    [] o.op = "message"   -> IF o.v = <<>> THEN m ELSE [m EXCEPT !.msg = Some(o.v)]
    [] o.op = "element"   -> AddElement(m, o.id)
    [] o.op = "param"     -> AddParam(m, o.id, o.name, o.v)
SdOps == {"element", "param"}

\* -------------------------------------------------------- serialisation
RECURSIVE DecOf(_), Less(_, _), SortedSeq(_), Concat(_, _, _)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecOf(n \div 10), 48 + (n % 10))
Pad(n, w) == LET d == DecOf(n) IN [i \in 1..w |-> IF i <= w - Len(d) THEN 48 ELSE d[i - (w - Len(d))]]
\* byte order of texts
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : y = x \/ Less(x, y)
                                         IN <<x>> \o SortedSeq(S \ {x})
EscapeValue(v) == LET F(a, b) == IF ToEscape(b) THEN a \o <<BS, b>> ELSE Append(a, b) IN FoldLeft(F, <<>>, v)
Concat(F(_), s, k) == IF k > Len(s) THEN <<>> ELSE F(s[k]) \o Concat(F, s, k + 1)

TsText(t) ==
  LET ab   == IF t.off < 0 THEN 0 - t.off ELSE t.off
      us   == Pad(t.us, 6)
      last == IF t.us = 0 THEN 0 ELSE CHOOSE i \in 1..6 : us[i] # 48 /\ \A j \in i + 1..6 : us[j] = 48
  IN Pad(t.y, 4) \o <<DASH>> \o Pad(t.mo, 2) \o <<DASH>> \o Pad(t.d, 2) \o <<CHT>> \o Pad(t.h, 2) \o <<COLON>>
     \o Pad(t.mi, 2) \o <<COLON>> \o Pad(t.s, 2) \o (IF last = 0 THEN <<>> ELSE <<DOT>> \o SubSeq(us, 1, last))
     \o (IF t.off = 0 THEN <<CHZ>> ELSE <<IF t.off < 0 THEN DASH ELSE PLUS>> \o Pad(ab \div 60, 2) \o <<COLON>> \o Pad(ab % 60, 2))
SdText(sd) ==
  LET Param(el, n) == <<SP>> \o n \o <<EQ, DQ>> \o EscapeValue(el[n]) \o <<DQ>>
      Elem(id)     == LET P(n) == Param(sd[id], n) IN <<LSB>> \o id \o Concat(P, SortedSeq(DOMAIN sd[id]), 1) \o <<RSB>>
  IN Concat(Elem, SortedSeq(DOMAIN sd), 1)
OrDash(x) == IF x = None THEN <<DASH>> ELSE x[1]
\* one possible serialisation; any other one with the same reading will do
Serialised(m) ==
  <<LT>> \o DecOf(m.pri[1]) \o <<GT>> \o DecOf(m.ver) \o <<SP>> \o (IF m.ts = None THEN <<DASH>> ELSE TsText(m.ts[1])) \o <<SP>>
  \o OrDash(m.host) \o <<SP>> \o OrDash(m.app) \o <<SP>> \o OrDash(m.proc) \o <<SP>> \o OrDash(m.msgid) \o <<SP>>
  \o (IF m.sd = None THEN <<DASH>> ELSE SdText(m.sd[1])) \o (IF m.msg = None THEN <<>> ELSE <<SP>> \o m.msg[1])

\* the message the parser reads from a text, None if it is rejected
Reading(s) == LET f == Run(s, FALSE) IN IF IsOk(f.ctl) THEN Some(OfParsed(Message(f.regs))) ELSE None
=============================================================================
