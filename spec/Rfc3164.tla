------------------------------ MODULE Rfc3164 ------------------------------
(****************************************************************************)
(* RFC 3164 message parsing, one byte per step (same structure as Rfc5424). *)
(*                                                                          *)
(* The text after the hostname has two readings that are followed at the    *)
(* same time: a plain message, and a prefix TAG: / TAG[CONTENT]: with a     *)
(* message behind it.  Control states of that part are                      *)
(*   <<"tag", n>>   n tag bytes read (plain reading possible)               *)
(*   <<"tcol", 0>>  after TAG:                                              *)
(*   <<"tsp", 0>>   after TAG:SP                                            *)
(*   <<"plain", 0>> only the plain reading is left                          *)
(*   <<"pref", 0>>  prefix TAG: committed                                   *)
(*   <<"cont", k, m, q>>  inside TAG[CONTENT; k bytes of "]: " just matched,*)
(*                  m = 1: plain reading possible, q = 1: the prefix was    *)
(*                  committed and only visible bytes followed               *)
(****************************************************************************)
EXTENDS Bytes, TLC, Naturals, Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

CONSTANTS MaxHost, MaxTag

Fail(kind)   == <<"fail", kind>>
IsFail(c)    == c[1] = "fail"
Go(c, acts)  == [to |-> c, acts |-> acts]
Err(kind)    == [to |-> Fail(kind), acts |-> <<>>]
C(ph)        == <<ph, 0>>
CN(ph, n)    == <<ph, n>>
Cont(k, m, q) == <<"cont", k, m, q>>

InitCtl == C("start")

IsTagByte(b) == IsGraph(b) /\ b # COLON /\ b # LSB

\* month names as byte triples; a phase per distinct prefix
Months == << <<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
             <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>> >>
Mon1 == {Months[i][1] : i \in 1..12}
Mon2 == {<<Months[i][1], Months[i][2]>> : i \in 1..12}

StampPhases == {"m2", "m3", "stD0", "stD", "stDs", "stD12", "stD3", "stSp", "stH", "stH1", "stH2", "stHc",
                "stMi", "stMi1", "stMic", "stS", "stS1"}
RfcPhases   == {"rY2", "rY3", "rY4", "rYd", "rM", "rM0", "rM1", "rMd", "rD", "rD0", "rD1", "rD3", "rT",
                "rH", "rH1", "rH2", "rHc", "rMi", "rMi1", "rMic", "rS", "rS1",
                "rZ", "rOh", "rOh1", "rOh2", "rOc", "rOm", "rOm1"}
\* the zone part, the only one with an error text of its own
RfcZone     == {"rZ", "rOh", "rOh1", "rOh2", "rOc", "rOm", "rOm1"}

StampDelta(ph, x, b) ==
   LET to(p)    == Go(C(p), <<"push">>)
       bad      == Err("timestamp")
       dig(p)   == IF IsDigit(b) THEN to(p) ELSE bad
       is(z, p) == IF b = z THEN to(p) ELSE bad
       six(p)   == IF In(b, 48, 53) THEN to(p) ELSE bad
   IN CASE ph = "m2"   -> IF <<x, b>> \in Mon2 THEN Go(<<"m3", x, b>>, <<"push">>) ELSE bad
        [] ph = "stD0" -> is(SP, "stD")
        [] ph = "stD"  -> IF b = SP THEN to("stDs") ELSE IF b \in {49, 50} THEN to("stD12")
                          ELSE IF b = 51 THEN to("stD3") ELSE bad
        [] ph = "stDs" -> IF IsNzDigit(b) THEN to("stSp") ELSE bad
        [] ph = "stD12"-> dig("stSp")
        [] ph = "stD3" -> IF b \in {48, 49} THEN to("stSp") ELSE bad
        [] ph = "stSp" -> is(SP, "stH")
        [] ph = "stH"  -> IF b \in {48, 49} THEN to("stH1") ELSE IF b = 50 THEN to("stH2") ELSE bad
        [] ph = "stH1" -> dig("stHc")
        [] ph = "stH2" -> IF In(b, 48, 51) THEN to("stHc") ELSE bad
        [] ph = "stHc" -> is(COLON, "stMi")
        [] ph = "stMi" -> six("stMi1")
        [] ph = "stMi1"-> dig("stMic")
        [] ph = "stMic"-> is(COLON, "stS")
        [] ph = "stS"  -> six("stS1")
        [] ph = "stS1" -> dig("stEnd")

RfcDelta(ph, b) ==
   LET to(p)    == Go(C(p), <<"push">>)
       bad      == Err(IF ph \in RfcZone THEN "rfc3339" ELSE "parse")
       dig(p)   == IF IsDigit(b) THEN to(p) ELSE bad
       is(z, p) == IF b = z THEN to(p) ELSE bad
       six(p)   == IF In(b, 48, 53) THEN to(p) ELSE bad
   IN CASE ph = "rY2"  -> dig("rY3")
        [] ph = "rY3"  -> dig("rY4")
        [] ph = "rY4"  -> dig("rYd")
        [] ph = "rYd"  -> is(DASH, "rM")
        [] ph = "rM"   -> IF b = 48 THEN to("rM0") ELSE IF b = 49 THEN to("rM1") ELSE bad
        [] ph = "rM0"  -> IF IsNzDigit(b) THEN to("rMd") ELSE bad
        [] ph = "rM1"  -> IF In(b, 48, 50) THEN to("rMd") ELSE bad
        [] ph = "rMd"  -> is(DASH, "rD")
        [] ph = "rD"   -> IF b = 48 THEN to("rD0") ELSE IF b \in {49, 50} THEN to("rD1")
                          ELSE IF b = 51 THEN to("rD3") ELSE bad
        [] ph = "rD0"  -> IF IsNzDigit(b) THEN to("rT") ELSE bad
        [] ph = "rD1"  -> dig("rT")
        [] ph = "rD3"  -> IF b \in {48, 49} THEN to("rT") ELSE bad
        [] ph = "rT"   -> is(CHT, "rH")
        [] ph = "rH"   -> IF b \in {48, 49} THEN to("rH1") ELSE IF b = 50 THEN to("rH2") ELSE bad
        [] ph = "rH1"  -> dig("rHc")
        [] ph = "rH2"  -> IF In(b, 48, 51) THEN to("rHc") ELSE bad
        [] ph = "rHc"  -> is(COLON, "rMi")
        [] ph = "rMi"  -> six("rMi1")
        [] ph = "rMi1" -> dig("rMic")
        [] ph = "rMic" -> is(COLON, "rS")
        [] ph = "rS"   -> six("rS1")
        [] ph = "rS1"  -> dig("rZ")
        [] ph = "rZ"   -> IF b = CHZ THEN to("rEnd") ELSE IF b \in {PLUS, DASH} THEN to("rOh") ELSE bad
        [] ph = "rOh"  -> IF b \in {48, 49} THEN to("rOh1") ELSE IF b = 50 THEN to("rOh2") ELSE bad
        [] ph = "rOh1" -> dig("rOc")
        [] ph = "rOh2" -> IF In(b, 48, 51) THEN to("rOc") ELSE bad
        [] ph = "rOc"  -> is(COLON, "rOm")
        [] ph = "rOm"  -> six("rOm1")
        [] ph = "rOm1" -> dig("rEnd")

\* rfc: WithRFC3339
Delta(c, b, rfc) ==
   LET ph == c[1]
       n  == c[2]
   IN
   CASE ph = "fail"  -> Go(c, <<>>)
     [] ph = "start" -> IF b = LT THEN Go(C("pri"), <<>>) ELSE Err("pri")
     [] ph = "pri"   -> IF b = 48 THEN Go(C("priEnd"), <<"num">>)
                        ELSE IF b = 49 THEN Go(C("pri1"), <<"num">>)
                        ELSE IF IsDigit(b) THEN Go(C("priLast"), <<"num">>)
                        ELSE Err("prival")
     [] ph = "pri1"  -> IF b = GT THEN Go(C("ts"), <<"pri!">>)
                        ELSE IF In(b, 48, 56) THEN Go(C("priLast"), <<"num">>)
                        ELSE IF b = 57 THEN Go(C("pri19"), <<"num">>)
                        ELSE Err("prival")
     [] ph = "pri19" -> IF b = GT THEN Go(C("ts"), <<"pri!">>)
                        ELSE IF b \in {48, 49} THEN Go(C("priEnd"), <<"num">>)
                        ELSE Err("prival")
     [] ph = "priLast" -> IF b = GT THEN Go(C("ts"), <<"pri!">>)
                        ELSE IF IsDigit(b) THEN Go(C("priEnd"), <<"num">>)
                        ELSE Err("prival")
     [] ph = "priEnd"-> IF b = GT THEN Go(C("ts"), <<"pri!">>) ELSE Err("prival")
     \* ---- TIMESTAMP
     [] ph = "ts"    -> IF b \in Mon1 THEN Go(CN("m2", b), <<"push">>)
                        ELSE IF rfc /\ IsDigit(b) THEN Go(C("rY2"), <<"push">>)
                        ELSE Err("timestamp")
     [] ph = "m3"    -> IF \E i \in 1..12 : Months[i] = <<n, c[3], b>> THEN Go(C("stD0"), <<"push">>) ELSE Err("timestamp")
     [] ph \in StampPhases \ {"m3"} -> StampDelta(ph, n, b)
     [] ph \in RfcPhases -> RfcDelta(ph, b)
     [] ph = "stEnd" -> IF b = SP THEN Go(C("host"), <<"stamp!">>) ELSE Err("parse")
     [] ph = "rEnd"  -> IF b = SP THEN Go(C("host"), <<"rfc!">>) ELSE Err("parse")
     \* ---- HOSTNAME
     [] ph = "host"  -> IF IsGraph(b) /\ n < MaxHost THEN Go(CN("host", n + 1), <<"push">>)
                        ELSE IF b = SP /\ n > 0 THEN Go(C("text"), <<"host!">>)
                        ELSE Err("hostname")
     \* ---- text
     [] ph = "text"  -> IF IsTagByte(b) THEN Go(CN("tag", 1), <<"msg">>)
                        ELSE IF IsVisible(b) THEN Go(C("plain"), <<"msg">>)
                        ELSE Err("tag")
     [] ph = "tag"   -> IF IsTagByte(b) /\ n < MaxTag THEN Go(CN("tag", n + 1), <<"msg">>)
                        ELSE IF b = COLON THEN Go(C("tcol"), <<"tag!", "msg">>)
                        ELSE IF b = LSB THEN Go(Cont(0, 1, 0), <<"tag!", "msg">>)
                        ELSE IF IsVisible(b) THEN Go(C("plain"), <<"msg">>)
                        ELSE Err("parse")
     [] ph = "tcol"  -> IF b = SP THEN Go(C("tsp"), <<"msg">>)
                        ELSE IF IsVisible(b) THEN Go(C("plain"), <<"msg">>)
                        ELSE Err("parse")
     [] ph = "tsp"   -> IF IsVisible(b) THEN Go(C("pref"), <<"set1", "msg">>) ELSE Err("parse")
     [] ph \in {"plain", "pref"} -> IF IsVisible(b) THEN Go(c, <<"msg">>) ELSE Err("parse")
     [] ph = "cont"  ->
          LET m   == c[3]
              q   == c[4]
              k2  == IF b = RSB THEN 1 ELSE IF n = 1 /\ b = COLON THEN 2 ELSE IF n = 2 /\ b = SP THEN 3 ELSE 0
          IN IF ~IsVisible(b) THEN Go(Cont(0, 0, 0), IF q = 1 THEN <<"unset", "msg">> ELSE <<"msg">>)
             ELSE IF n = 3 /\ q = 0 THEN Go(Cont(k2, m, 1), <<"set2", "msg">>)
             ELSE Go(Cont(k2, m, q), <<"msg">>)

Ok == <<"ok", 0>>
IsOk(c) == c[1] = "ok"

EofDelta(c) ==
   LET ph == c[1] IN
   CASE ph = "fail"  -> Go(c, <<>>)
     [] ph = "start" -> Err("pri")
     [] ph \in {"pri", "pri1", "pri19", "priLast", "priEnd"} -> Err("prival")
     [] ph = "ts" \/ ph \in StampPhases -> Err("timestamp")
     [] ph \in RfcPhases -> Err(IF ph \in RfcZone THEN "rfc3339" ELSE "parse")
     [] ph \in {"stEnd", "rEnd"} -> Err("parse")
     [] ph = "host"  -> Err("hostname")
     [] ph = "text"  -> Err("tag")
     [] ph \in {"tag", "tcol", "tsp", "plain", "pref"} -> Go(Ok, <<"end!">>)
     [] ph = "cont"  -> IF c[3] = 1 \/ c[4] = 1 THEN Go(Ok, <<"end!">>) ELSE Err("parse")

\* ---------------------------------------------------------- registers
InitRegs == [num |-> 0, pri |-> None, ts |-> None, host |-> <<>>, cur |-> <<>>,
             text |-> <<>>,      \* all bytes of the text so far
             tagtext |-> <<>>,   \* TAG of the prefix being read
             app |-> <<>>, proc |-> <<>>, at |-> 0,  \* committed prefix and where the message behind it starts
             msg |-> <<>>]

MonthOf(s) == CHOOSE i \in 1..12 : Months[i] = SubSeq(s, 1, 3)
Two(s, i) == 10 * (IF s[i] = SP THEN 0 ELSE Dig(s[i])) + Dig(s[i + 1])
StampFields(s) == [rfc |-> FALSE, y |-> 0, mo |-> MonthOf(s), d |-> Two(s, 5), h |-> Two(s, 8), mi |-> Two(s, 11),
                   s |-> Two(s, 14), off |-> 0]
RfcFields(s) == [rfc |-> TRUE, y |-> 100 * Two(s, 1) + Two(s, 3), mo |-> Two(s, 6), d |-> Two(s, 9), h |-> Two(s, 12),
                 mi |-> Two(s, 15), s |-> Two(s, 18),
                 off |-> IF s[20] = CHZ THEN 0
                         ELSE LET o == 60 * Two(s, 21) + Two(s, 24) IN IF s[20] = DASH THEN 0 - o ELSE o]

Exec1(a, r, b) ==
   LET ok(x) == [r |-> x, err |-> ""]
       date(t) == IF t.d <= DaysIn(t.y, t.mo) THEN ok([r EXCEPT !.ts = Some(t), !.cur = <<>>]) ELSE [r |-> r, err |-> "date"]
   IN CASE a = "num"    -> ok([r EXCEPT !.num = 10 * @ + Dig(b)])
        [] a = "pri!"   -> ok([r EXCEPT !.pri = Some(r.num)])
        [] a = "push"   -> ok([r EXCEPT !.cur = Append(@, b)])
        [] a = "stamp!" -> date(StampFields(r.cur))
        [] a = "rfc!"   -> date(RfcFields(r.cur))
        [] a = "host!"  -> ok([r EXCEPT !.host = r.cur, !.cur = <<>>])
        [] a = "msg"    -> ok([r EXCEPT !.text = Append(@, b)])
        [] a = "tag!"   -> ok([r EXCEPT !.tagtext = r.text])
        [] a = "set1"   -> ok([r EXCEPT !.app = r.tagtext, !.at = Len(r.text)])
        [] a = "set2"   -> ok([r EXCEPT !.app = r.tagtext, !.at = Len(r.text),
                               !.proc = SubSeq(r.text, Len(r.tagtext) + 2, Len(r.text) - 3)])
        [] a = "unset"  -> ok([r EXCEPT !.app = <<>>, !.proc = <<>>, !.at = 0])
        [] a = "end!"   -> ok([r EXCEPT !.msg = SubSeq(r.text, r.at + 1, Len(r.text))])

RECURSIVE Exec(_, _, _)
Exec(acts, r, b) ==
   IF acts = <<>> THEN [r |-> r, err |-> ""]
   ELSE LET x == Exec1(Head(acts), r, b)
        IN IF x.err # "" THEN x ELSE Exec(Tail(acts), x.r, b)

\* ------------------------------------------------------------ machine
InitState == [ctl |-> InitCtl, regs |-> InitRegs, col |-> 0]
Apply(st, t, b, adv) ==
   LET x == Exec(t.acts, st.regs, b)
   IN IF x.err # "" THEN [ctl |-> Fail(x.err), regs |-> x.r, col |-> st.col]
      ELSE [ctl |-> t.to, regs |-> x.r, col |-> IF IsFail(t.to) THEN st.col ELSE st.col + adv]
Step(st, b, rfc) == IF IsFail(st.ctl) THEN st ELSE Apply(st, Delta(st.ctl, b, rfc), b, 1)
Finish(st) == IF IsFail(st.ctl) THEN st ELSE Apply(st, EofDelta(st.ctl), 0, 0)

\* a failed state absorbs further bytes (Step)
Run(in, rfc) == LET F(st, b) == Step(st, b, rfc) IN Finish(FoldLeft(F, InitState, in))

\* ------------------------------------------------------------ outcome
ErrText(kind) ==
   CASE kind = "prival"    -> "expecting a priority value in the range 1-191 or equal to 0"
     [] kind = "pri"       -> "expecting a priority value within angle brackets"
     [] kind = "timestamp" -> "expecting a Stamp timestamp"
     [] kind = "rfc3339"   -> "expecting a Stamp or a RFC3339 timestamp"
     [] kind = "hostname"  -> "expecting an hostname (from 1 to max 255 US-ASCII characters)"
     [] kind = "tag"       -> "expecting an alphanumeric tag (max 32 characters)"
     [] kind = "parse"     -> "parsing error"
     [] kind = "date"      -> "DATE"
ErrKinds == {"prival", "pri", "timestamp", "rfc3339", "hostname", "tag", "parse", "date"}

Minimal(r) == r.pri # None

Message(r) == [pri |-> r.pri[1], fac |-> r.pri[1] \div 8, sev |-> r.pri[1] % 8, ts |-> r.ts,
               host |-> TextOpt(r.host), app |-> TextOpt(r.app), proc |-> TextOpt(r.proc),
               msg |-> IF r.msg = <<>> THEN None ELSE Some(r.msg)]
Outcome(f, bestEffort) ==
   IF IsOk(f.ctl) THEN [msg |-> Some(Message(f.regs)), err |-> None]
   ELSE [msg |-> IF bestEffort /\ Minimal(f.regs) THEN Some(Message(f.regs)) ELSE None,
         err |-> Some([kind |-> f.ctl[2], col |-> f.col])]

\* --------------------------------------------- time under year and zones
\* Days since 0000-03-01 (proleptic Gregorian) of a date, any year
FloorDiv(a, b) == IF a >= 0 THEN a \div b ELSE 0 - ((b - 1 - a) \div b)
DayNo(y, m, d) ==
   LET yy == IF m <= 2 THEN y - 1 ELSE y
       mm == IF m <= 2 THEN m + 9 ELSE m - 3
   IN 365 * yy + FloorDiv(yy, 4) - FloorDiv(yy, 100) + FloorDiv(yy, 400) + (153 * mm + 2) \div 5 + d - 1

\* A wall clock reading with offset off (seconds east) as <<day, second>> of UTC
Utc(y, m, d, h, mi, s, off) ==
   LET sec == 3600 * h + 60 * mi + s - off
       k   == FloorDiv(sec, 86400)
   IN <<DayNo(y, m, d) + k, sec - 86400 * k>>

\* What ts denotes given opt.year, opt.locoff (offset of the locale zone at
\* that wall clock reading, 0 without locale zone), opt.zoneoff (offset of the
\* WithTimezone zone at that instant; None without the option): the instant
\* and the offset it is expressed with.
\* 29 February of a year without one is the day after 28 February.
TsMeaning(ts, opt) ==
   IF ts.rfc THEN [utc |-> Utc(ts.y, ts.mo, ts.d, ts.h, ts.mi, ts.s, 60 * ts.off), off |-> 60 * ts.off]
   ELSE [utc |-> Utc(opt.year, ts.mo, ts.d, ts.h, ts.mi, ts.s, opt.locoff),
         off |-> IF opt.zoneoff = None THEN opt.locoff ELSE opt.zoneoff[1]]
=============================================================================
