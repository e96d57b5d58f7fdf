------------------------------ MODULE Rfc5424 ------------------------------
(****************************************************************************)
(* RFC 5424 message parsing, one byte per step.                             *)
(*                                                                          *)
(* Control states are pairs <<phase, count>>.  Delta/EofDelta give, for a   *)
(* control state and the next byte (or the end of the input), the next      *)
(* control state and the register actions to perform.  Exec performs the    *)
(* actions; two of them (calendar check, duplicate SD-ID check) can divert  *)
(* to an error of their own.  Outcome turns the final state into what Parse *)
(* returns: optional message plus optional error.                           *)
(*                                                                          *)
(* The table Delta is also what TLC exports (Export5424.tla) and what the   *)
(* Go harness replays into the real parser, and Trace5424.tla checks        *)
(* recorded results of the real parser against Outcome.                     *)
(****************************************************************************)
EXTENDS Bytes, Limits5424, TLC, Naturals, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt


\* ------------------------------------------------------------ control
Fail(kind)   == <<"fail", kind>>
IsFail(c)    == c[1] = "fail"
Go(c, acts)  == [to |-> c, acts |-> acts]
Err(kind)    == [to |-> Fail(kind), acts |-> <<>>]
ErrA(k, a)   == [to |-> Fail(k), acts |-> a]
C(ph)        == <<ph, 0>>
CN(ph, n)    == <<ph, n>>

InitCtl == C("start")

\* header text field: phase, maximum, commit action, error kind, phase after SP
TextField(ph, n, b, max, commit, kind, next) ==
   IF IsGraph(b) /\ n < max THEN Go(CN(ph, n + 1), <<"push">>)
   ELSE IF b = SP /\ n > 0 THEN Go(C(next), <<commit>>)
   ELSE Err(kind)

\* timestamp: strings of the phases are positions in the RFC 3339 grammar
TsDelta(ph, n, b) ==
   LET to(p)    == Go(C(p), <<"push">>)
       bad      == Err("timestamp")
       dig(p)   == IF IsDigit(b) THEN to(p) ELSE bad
       is(x, p) == IF b = x THEN to(p) ELSE bad
       six(p)   == IF In(b, 48, 53) THEN to(p) ELSE bad
       zone     == IF b = CHZ THEN to("tsEnd") ELSE IF b \in {PLUS, DASH} THEN to("tsOh") ELSE bad
   IN CASE ph = "ts"   -> IF b = DASH THEN Go(C("tsNil"), <<>>) ELSE dig("tsY1")
        [] ph = "tsY1" -> dig("tsY2")
        [] ph = "tsY2" -> dig("tsY3")
        [] ph = "tsY3" -> dig("tsY4")
        [] ph = "tsY4" -> is(DASH, "tsM")
        [] ph = "tsM"  -> IF b = 48 THEN to("tsM0") ELSE IF b = 49 THEN to("tsM1") ELSE bad
        [] ph = "tsM0" -> IF IsNzDigit(b) THEN to("tsMd") ELSE bad
        [] ph = "tsM1" -> IF In(b, 48, 50) THEN to("tsMd") ELSE bad
        [] ph = "tsMd" -> is(DASH, "tsD")
        [] ph = "tsD"  -> IF b = 48 THEN to("tsD0") ELSE IF b \in {49, 50} THEN to("tsD1")
                          ELSE IF b = 51 THEN to("tsD3") ELSE bad
        [] ph = "tsD0" -> IF IsNzDigit(b) THEN to("tsT") ELSE bad
        [] ph = "tsD1" -> dig("tsT")
        [] ph = "tsD3" -> IF b \in {48, 49} THEN to("tsT") ELSE bad
        [] ph = "tsT"  -> is(CHT, "tsH")
        [] ph = "tsH"  -> IF b \in {48, 49} THEN to("tsH1") ELSE IF b = 50 THEN to("tsH2") ELSE bad
        [] ph = "tsH1" -> dig("tsHc")
        [] ph = "tsH2" -> IF In(b, 48, 51) THEN to("tsHc") ELSE bad
        [] ph = "tsHc" -> is(COLON, "tsMi")
        [] ph = "tsMi" -> six("tsMi1")
        [] ph = "tsMi1"-> dig("tsMic")
        [] ph = "tsMic"-> is(COLON, "tsS")
        [] ph = "tsS"  -> six("tsS1")
        [] ph = "tsS1" -> dig("tsSe")
        [] ph = "tsSe" -> IF b = DOT THEN to("tsF") ELSE zone
        [] ph = "tsF"  -> IF IsDigit(b) /\ n < 6 THEN Go(CN("tsF", n + 1), <<"push">>)
                          ELSE IF n > 0 THEN zone ELSE bad
        [] ph = "tsOh" -> IF b \in {48, 49} THEN to("tsOh1") ELSE IF b = 50 THEN to("tsOh2") ELSE bad
        [] ph = "tsOh1"-> dig("tsOc")
        [] ph = "tsOh2"-> IF In(b, 48, 51) THEN to("tsOc") ELSE bad
        [] ph = "tsOc" -> is(COLON, "tsOm")
        [] ph = "tsOm" -> six("tsOm1")
        [] ph = "tsOm1"-> dig("tsEnd")
        [] ph = "tsEnd"-> IF b = SP THEN Go(C("host"), <<"ts!">>) ELSE ErrA("parse", <<"ts!">>)
        [] ph = "tsNil"-> IF b = SP THEN Go(C("host"), <<>>) ELSE Err("parse")

TsPhases == {"ts", "tsY1", "tsY2", "tsY3", "tsY4", "tsM", "tsM0", "tsM1", "tsMd", "tsD", "tsD0",
             "tsD1", "tsD3", "tsT", "tsH", "tsH1", "tsH2", "tsHc", "tsMi", "tsMi1", "tsMic",
             "tsS", "tsS1", "tsSe", "tsF", "tsOh", "tsOh1", "tsOh2", "tsOc", "tsOm", "tsOm1",
             "tsEnd", "tsNil"}

\* compliant = TRUE models WithCompliantMsg
Delta(c, b, compliant) ==
   LET ph == c[1]
       n  == c[2]
   IN
   CASE ph = "fail"  -> Go(c, <<>>)
     \* ---- PRI
     [] ph = "start" -> IF b = LT THEN Go(C("pri"), <<>>) ELSE Err("pri")
     [] ph = "pri"   -> IF b = 48 THEN Go(C("priEnd"), <<"num">>)
                        ELSE IF b = 49 THEN Go(C("pri1"), <<"num">>)
                        ELSE IF IsDigit(b) THEN Go(C("priLast"), <<"num">>)
                        ELSE Err("prival")
     [] ph = "pri1"  -> IF b = GT THEN Go(C("ver"), <<"pri!">>)
                        ELSE IF In(b, 48, 56) THEN Go(C("priLast"), <<"num">>)
                        ELSE IF b = 57 THEN Go(C("pri19"), <<"num">>)
                        ELSE Err("prival")
     [] ph = "pri19" -> IF b = GT THEN Go(C("ver"), <<"pri!">>)
                        ELSE IF b \in {48, 49} THEN Go(C("priEnd"), <<"num">>)
                        ELSE Err("prival")
     [] ph = "priLast" -> IF b = GT THEN Go(C("ver"), <<"pri!">>)
                        ELSE IF IsDigit(b) THEN Go(C("priEnd"), <<"num">>)
                        ELSE Err("prival")
     [] ph = "priEnd"-> IF b = GT THEN Go(C("ver"), <<"pri!">>) ELSE Err("prival")
     \* ---- VERSION
     [] ph = "ver"   -> IF n = 0 THEN (IF IsNzDigit(b) THEN Go(CN("ver", 1), <<"ver">>) ELSE Err("version"))
                        ELSE IF IsDigit(b) /\ n < 3 THEN Go(CN("ver", n + 1), <<"ver">>)
                        ELSE IF b = SP THEN Go(C("ts"), <<>>)
                        ELSE IF n = 1 THEN Err("parse") ELSE Err("version")
     \* ---- TIMESTAMP
     [] ph \in TsPhases -> TsDelta(ph, n, b)
     \* ---- HOSTNAME .. MSGID
     [] ph = "host"  -> TextField("host", n, b, MaxHost, "host!", "hostname", "app")
     [] ph = "app"   -> TextField("app", n, b, MaxApp, "app!", "appname", "proc")
     [] ph = "proc"  -> TextField("proc", n, b, MaxProc, "proc!", "procid", "msgid")
     [] ph = "msgid" -> TextField("msgid", n, b, MaxMsgid, "msgid!", "msgid", "sd")
     \* ---- STRUCTURED-DATA
     [] ph = "sd"    -> IF b = DASH THEN Go(C("sdNil"), <<>>)
                        ELSE IF b = LSB THEN Go(C("id"), <<"sd{">>)
                        ELSE Err("structureddata")
     [] ph = "sdNil" -> IF b = SP THEN Go(C("msg"), <<>>) ELSE Err("parse")
     [] ph = "id"    -> IF IsNameByte(b) /\ n < MaxName THEN Go(CN("id", n + 1), <<"push">>)
                        ELSE IF n > 0 /\ b = SP THEN Go(C("pn"), <<"id!">>)
                        ELSE IF n > 0 /\ b = RSB THEN Go(C("elemEnd"), <<"id!">>)
                        ELSE IF n > 0 THEN ErrA("sdid", <<"id?">>) ELSE Err("sdid")
     [] ph = "pn"    -> IF IsNameByte(b) /\ n < MaxName THEN Go(CN("pn", n + 1), <<"push">>)
                        ELSE IF n > 0 /\ b = EQ THEN Go(C("eq"), <<"pn!">>)
                        ELSE Err("sdparam")
     [] ph = "eq"    -> IF b = DQ THEN Go(C("val"), <<>>) ELSE Err("sdparam")
     [] ph = "val"   -> IF b = DQ THEN Go(C("valEnd"), <<"val!">>)
                        ELSE IF b = BS THEN Go(C("esc"), <<>>)
                        ELSE IF b = RSB THEN Err("escape")
                        ELSE LET u == Utf8Lead(b) IN
                             IF u = "bad" THEN Err("escape")
                             ELSE IF u = "u0" THEN Go(C("val"), <<"push">>)
                             ELSE Go(<<"valU", u>>, <<"push">>)
     [] ph = "valU"  -> LET u == Utf8Tail(n, b) IN
                        IF u = "bad" THEN Err("sdparam")
                        ELSE IF u = "u0" THEN Go(C("val"), <<"push">>)
                        ELSE Go(<<"valU", u>>, <<"push">>)
     [] ph = "esc"   -> IF ToEscape(b) THEN Go(C("val"), <<"push">>) ELSE Err("escape")
     [] ph = "valEnd"-> IF b = SP THEN Go(C("pn"), <<"par!">>)
                        ELSE IF b = RSB THEN Go(C("elemEnd"), <<"par!">>)
                        ELSE Err("sdparam")
     [] ph = "elemEnd" -> IF b = LSB THEN Go(C("id"), <<>>)
                        ELSE IF b = SP THEN Go(C("msg"), <<>>)
                        ELSE Err("structureddata")
     \* ---- MSG (n = 0: nothing read yet)
     [] ph = "msg"   -> IF compliant /\ b = BOM1 THEN Go(C("bom1"), <<"msg">>)
                        ELSE Go(C("any"), <<"msg">>)
     [] ph = "any"   -> Go(C("any"), <<"msg">>)
     [] ph = "bom1"  -> IF b = BOM2 THEN Go(C("bom2"), <<"msg">>) ELSE Go(C("any"), <<"msg">>)
     [] ph = "bom2"  -> IF b = BOM3 THEN Go(C("utf8"), <<"msg">>) ELSE Go(C("any"), <<"msg">>)
     [] ph = "utf8"  -> LET u == Utf8Lead(b) IN
                        IF u = "bad" THEN Err("msgc")
                        ELSE IF u = "u0" THEN Go(C("utf8"), <<"msg">>)
                        ELSE Go(<<"utf8U", u>>, <<"msg">>)
     [] ph = "utf8U" -> LET u == Utf8Tail(n, b) IN
                        IF u = "bad" THEN Err("msgc")
                        ELSE IF u = "u0" THEN Go(C("utf8"), <<"msg">>)
                        ELSE Go(<<"utf8U", u>>, <<"msg">>)

Ok == <<"ok", 0>>
IsOk(c) == c[1] = "ok"

\* end of input in control state c
EofDelta(c) ==
   LET ph == c[1]
       n  == c[2]
   IN
   CASE ph = "fail" -> Go(c, <<>>)
     [] ph \in {"sdNil", "elemEnd", "msg", "any", "bom1", "bom2", "utf8"} -> Go(Ok, <<>>)
     [] ph = "start" -> Err("pri")
     [] ph \in {"pri", "pri1", "pri19", "priLast", "priEnd"} -> Err("prival")
     [] ph = "ver"   -> IF n = 1 THEN Err("parse") ELSE Err("version")
     [] ph = "tsNil" -> Err("parse")
     [] ph = "tsEnd" -> ErrA("parse", <<"ts!">>)
     [] ph \in TsPhases \ {"tsNil", "tsEnd"} -> Err("timestamp")
     [] ph = "host"  -> Err("hostname")
     [] ph = "app"   -> Err("appname")
     [] ph = "proc"  -> Err("procid")
     [] ph = "msgid" -> Err("msgid")
     [] ph = "sd"    -> Err("structureddata")
     [] ph = "id"    -> IF n > 0 THEN ErrA("sdid", <<"id?">>) ELSE Err("sdid")
     [] ph \in {"pn", "eq", "valU", "valEnd"} -> Err("sdparam")
     [] ph \in {"val", "esc"} -> Err("escape")
     [] ph = "utf8U" -> Err("msgc")

\* ---------------------------------------------------------- registers
NoFun == [x \in {} |-> x]
InitRegs == [num |-> 0, pri |-> None, ver |-> 0, ts |-> None,
             host |-> <<>>, app |-> <<>>, proc |-> <<>>, msgid |-> <<>>,
             sd |-> NoFun, elem |-> <<>>, pname |-> <<>>, pval |-> <<>>, cur |-> <<>>, msg |-> <<>>]

\* value of a syntactically complete timestamp text (see TsDelta)
TsFields(s) ==
   LET two(i)   == 10 * Dig(s[i]) + Dig(s[i + 1])
       zoneAt   == CHOOSE i \in 20..Len(s) : s[i] \in {CHZ, PLUS, DASH}
       nfrac    == IF s[20] = DOT THEN zoneAt - 21 ELSE 0
       pow      == <<100000, 10000, 1000, 100, 10, 1>>
       frac     == [i \in 1..nfrac |-> Dig(s[20 + i]) * pow[i]]
       RECURSIVE Sum(_)
       Sum(k)   == IF k = 0 THEN 0 ELSE frac[k] + Sum(k - 1)
       offm     == IF s[zoneAt] = CHZ THEN 0 ELSE 60 * two(zoneAt + 1) + two(zoneAt + 4)
   IN [y |-> 100 * two(1) + two(3), mo |-> two(6), d |-> two(9), h |-> two(12), mi |-> two(15),
       s |-> two(18), us |-> Sum(nfrac), off |-> IF s[zoneAt] = DASH THEN 0 - offm ELSE offm]

\* one register action; result carries a (possibly empty) diverting error
Exec1(a, r, b) ==
   LET ok(x) == [r |-> x, err |-> ""]
   IN CASE a = "num"    -> ok([r EXCEPT !.num = 10 * @ + Dig(b)])
        [] a = "pri!"   -> ok([r EXCEPT !.pri = Some(r.num)])
        [] a = "ver"    -> ok([r EXCEPT !.ver = 10 * @ + Dig(b)])
        [] a = "push"   -> ok([r EXCEPT !.cur = Append(@, b)])
        [] a = "ts!"    -> LET t == TsFields(r.cur) IN
                           IF t.d <= DaysIn(t.y, t.mo)
                           THEN ok([r EXCEPT !.ts = Some(t), !.cur = <<>>])
                           ELSE [r |-> r, err |-> "date"]
        [] a = "host!"  -> ok([r EXCEPT !.host = r.cur, !.cur = <<>>])
        [] a = "app!"   -> ok([r EXCEPT !.app = r.cur, !.cur = <<>>])
        [] a = "proc!"  -> ok([r EXCEPT !.proc = r.cur, !.cur = <<>>])
        [] a = "msgid!" -> ok([r EXCEPT !.msgid = r.cur, !.cur = <<>>])
        [] a = "sd{"    -> ok([r EXCEPT !.sd = NoFun])
        [] a = "id!"    -> IF r.cur \in DOMAIN r.sd THEN [r |-> r, err |-> "dupid"]
                           ELSE ok([r EXCEPT !.sd = (r.cur :> NoFun) @@ @, !.elem = r.cur, !.cur = <<>>])
        [] a = "id?"    -> IF r.cur \in DOMAIN r.sd THEN [r |-> r, err |-> "dupid"] ELSE ok(r)
        [] a = "pn!"    -> ok([r EXCEPT !.pname = r.cur, !.cur = <<>>])
        [] a = "val!"   -> ok([r EXCEPT !.pval = r.cur, !.cur = <<>>])
        [] a = "par!"   -> ok([r EXCEPT !.sd[r.elem] = (r.pname :> r.pval) @@ @])
        [] a = "msg"    -> ok([r EXCEPT !.msg = Append(@, b)])

RECURSIVE Exec(_, _, _)
Exec(acts, r, b) ==
   IF acts = <<>> THEN [r |-> r, err |-> ""]
   ELSE LET x == Exec1(Head(acts), r, b)
        IN IF x.err # "" THEN x ELSE Exec(Tail(acts), x.r, b)

\* ------------------------------------------------------------ machine
\* col is the number of bytes consumed before the current one
InitState == [ctl |-> InitCtl, regs |-> InitRegs, col |-> 0]

Apply(st, t, b, adv) ==
   LET x == Exec(t.acts, st.regs, b)
   IN IF x.err # "" THEN [ctl |-> Fail(x.err), regs |-> x.r, col |-> st.col]
      ELSE [ctl |-> t.to, regs |-> x.r, col |-> IF IsFail(t.to) THEN st.col ELSE st.col + adv]

Step(st, b, compliant) ==
   IF IsFail(st.ctl) THEN st ELSE Apply(st, Delta(st.ctl, b, compliant), b, 1)

Finish(st) == IF IsFail(st.ctl) THEN st ELSE Apply(st, EofDelta(st.ctl), 0, 0)

\* a failed state absorbs further bytes (Step)
Run(in, compliant) == LET F(st, b) == Step(st, b, compliant) IN Finish(FoldLeft(F, InitState, in))

\* ------------------------------------------------------------ outcome
ErrText(kind) ==
   CASE kind = "prival"    -> "expecting a priority value in the range 1-191 or equal to 0"
     [] kind = "pri"       -> "expecting a priority value within angle brackets"
     [] kind = "version"   -> "expecting a version value in the range 1-999"
     [] kind = "timestamp" -> "expecting a RFC3339MICRO timestamp or a nil value"
     [] kind = "hostname"  -> "expecting an hostname (from 1 to max 255 US-ASCII characters) or a nil value"
     [] kind = "appname"   -> "expecting an app-name (from 1 to max 48 US-ASCII characters) or a nil value"
     [] kind = "procid"    -> "expecting a procid (from 1 to max 128 US-ASCII characters) or a nil value"
     [] kind = "msgid"     -> "expecting a msgid (from 1 to max 32 US-ASCII characters) or a nil value"
     [] kind = "structureddata" -> "expecting a structured data section containing one or more elements (`[id( key=\"value\")*]+`) or a nil value"
     [] kind = "sdid"      -> "expecting a structured data element id (from 1 to max 32 US-ASCII characters; except `=`, ` `, `]`, and `\"`"
     [] kind = "dupid"     -> "duplicate structured data element id"
     [] kind = "sdparam"   -> "expecting a structured data parameter (`key=\"value\"`, both part from 1 to max 32 US-ASCII characters; key cannot contain `=`, ` `, `]`, and `\"`, while value cannot contain `]`, backslash, and `\"` unless escaped)"
     [] kind = "msg"       -> "expecting a free-form optional message in UTF-8 (starting with or without BOM)"
     [] kind = "msgc"      -> "expecting a free-form optional message in UTF-8 (starting with or without BOM) or a free-form optional message in any encoding (starting without BOM)"
     [] kind = "escape"    -> "expecting chars `]`, `\"`, and `\\` to be escaped within param value"
     [] kind = "parse"     -> "parsing error"
     [] kind = "date"      -> "DATE"      \* the time package's message, normalised by the recorder

ErrKinds == {"prival", "pri", "version", "timestamp", "hostname", "appname", "procid", "msgid",
             "structureddata", "sdid", "dupid", "sdparam", "msg", "msgc", "escape", "parse", "date"}

Minimal(r) == r.pri # None /\ r.ver \in 1..999

\* all SD-IDs, each with its parameters; None without any element
SdOpt(r) == IF DOMAIN r.sd = {} THEN None ELSE Some(r.sd)

Message(r) == [pri |-> r.pri[1], fac |-> r.pri[1] \div 8, sev |-> r.pri[1] % 8, ver |-> r.ver, ts |-> r.ts,
               host |-> TextOpt(r.host), app |-> TextOpt(r.app), proc |-> TextOpt(r.proc),
               msgid |-> TextOpt(r.msgid), sd |-> SdOpt(r),
               msg |-> IF r.msg = <<>> THEN None ELSE Some(r.msg)]

\* f is the result of Finish
Outcome(f, bestEffort) ==
   IF IsOk(f.ctl) THEN [msg |-> Some(Message(f.regs)), err |-> None]
   ELSE [msg |-> IF bestEffort /\ Minimal(f.regs) THEN Some(Message(f.regs)) ELSE None,
         err |-> Some([kind |-> f.ctl[2], col |-> f.col])]
============================================================================
