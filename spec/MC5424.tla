------------------------------- MODULE MC5424 -------------------------------
(* Design check of Rfc5424: every input over small alphabets, continued from *)
(* several prefixes, is fed to the byte machine; each invariant compares the *)
(* machine with a declarative reading of the RFC 5424 grammar (below) that   *)
(* looks at the whole input at once and knows nothing about control states.  *)
EXTENDS Rfc5424, Grammar5424

CONSTANT Shrink  \* how much shallower than the depths below to explore

VARIABLES sc,    \* scenario
          in,    \* input read so far (history)
          cmp,   \* WithCompliantMsg
          st     \* machine

vars == <<sc, in, cmp, st>>

Hdr0 == <<60, 49, 62, 49, 32>>                                 \* "<1>1 "
Hdr5 == Hdr0 \o <<45, 32, 45, 32, 45, 32, 45, 32, 45, 32>>     \* "<1>1 - - - - - "
D(s) == Hdr0 \o s

\* scenario: prefix, alphabet, how many bytes may follow, compliant option
Scenarios == <<
  [pre |-> <<>>, alpha |-> {60, 62, 48, 49, 50, 57, 32, 120}, depth |-> 8, cmp |-> {FALSE}],
  [pre |-> Hdr0, alpha |-> {45, 32, 97, 127}, depth |-> 13, cmp |-> {FALSE}],
  [pre |-> Hdr5, alpha |-> {45, 91, 93, 32, 97, 61, 34, 92, 195, 169}, depth |-> 8, cmp |-> {FALSE}],
  [pre |-> Hdr5 \o <<91, 97, 32, 98, 61, 34>>, alpha |-> {93, 32, 97, 61, 34, 92, 91, 226, 130, 98}, depth |-> 7, cmp |-> {FALSE}],
  [pre |-> Hdr5 \o <<91, 97, 93>>, alpha |-> {91, 93, 32, 97, 98, 34}, depth |-> 8, cmp |-> {FALSE}],
  [pre |-> Hdr5 \o <<45, 32>>, alpha |-> {239, 187, 191, 97, 194, 128, 237, 160, 159, 244, 143, 224}, depth |-> 5, cmp |-> BOOLEAN],
  [pre |-> Hdr5 \o <<45, 32, 239, 187, 191>>, alpha |-> {97, 194, 128, 143, 144, 159, 160, 191, 192, 224, 237, 240, 241, 244, 245, 255}, depth |-> 5, cmp |-> {TRUE}],
  [pre |-> D(<<50, 48>>), alpha |-> {48, 49, 50, 51, 57, 45, 84}, depth |-> 9, cmp |-> {FALSE}],
  [pre |-> D(<<50, 48, 49, 57, 45, 49, 50, 45, 51, 49, 84>>), alpha |-> {48, 49, 50, 51, 52, 53, 54, 58}, depth |-> 8, cmp |-> {FALSE}],
  [pre |-> D(<<50, 48, 49, 57, 45, 48, 50, 45, 50, 56, 84, 50, 51, 58, 53, 57, 58, 53, 57>>), alpha |-> {46, 48, 49, 50, 52, 53, 54, 57, 43, 45, 58, 90, 32}, depth |-> 7, cmp |-> {FALSE}]
>>

Init == /\ sc \in 1..Len(Scenarios)
        /\ in = Scenarios[sc].pre
        /\ cmp \in Scenarios[sc].cmp
        /\ st = LET RECURSIVE R(_, _)
                    R(s, i) == IF i > Len(in) THEN s ELSE R(Step(s, in[i], cmp), i + 1)
                IN R(InitState, 1)
Read(b) == /\ ~IsFail(st.ctl)
           /\ Len(in) < Len(Scenarios[sc].pre) + Scenarios[sc].depth - Shrink
           /\ st' = Step(st, b, cmp)
           /\ in' = Append(in, b)
           /\ UNCHANGED <<sc, cmp>>
Next == \E b \in Scenarios[sc].alpha : Read(b)
Spec == Init /\ [][Next]_vars

\* all ways to read the input: <<tokens, elements, message>>
Readings(s) ==
  LET sp == Spaces(s) IN
  IF Len(sp) < 6 THEN {}
  ELSE LET tok(k) == SubSeq(s, IF k = 1 THEN 1 ELSE sp[k - 1] + 1, sp[k] - 1)
           from   == sp[6] + 1
           ends   == {e \in from..Len(s) : e = Len(s) \/ s[e + 1] = SP}
       IN IF IsPriVer(tok(1)) /\ IsTs(tok(2)) /\ IsText(tok(3), MaxHost) /\ IsText(tok(4), MaxApp)
             /\ IsText(tok(5), MaxProc) /\ IsText(tok(6), MaxMsgid)
          THEN UNION {{[toks |-> [k \in 1..6 |-> tok(k)], els |-> els, msg |-> SubSeq(s, e + 2, Len(s))] :
                        els \in SdReadings(SubSeq(s, from, e))} :
                      e \in {e \in ends : IsMsg(SubSeq(s, e + 2, Len(s)), cmp)}}
          ELSE {}

Grammatical == Readings(in) # {}

\* ------------------------------------------------------------- invariants
Fin == Finish(st)

\* C01/C05: the machine accepts exactly the grammar
AcceptsGrammar == IsOk(Fin.ctl) <=> Grammatical
\* the grammar is unambiguous, so a message has one meaning
Unambiguous == Cardinality(Readings(in)) <= 1

\* C02: an accepted input is reported verbatim
LastValue(ps) == [n \in {ps[k].n : k \in DOMAIN ps} |->
                    ps[CHOOSE k \in DOMAIN ps : ps[k].n = n /\ \A j \in DOMAIN ps : ps[j].n = n => j <= k].v]
SdMeaning(els) == IF els = <<>> THEN None
                  ELSE Some([id \in {els[k].id : k \in DOMAIN els} |-> LastValue(els[CHOOSE k \in DOMAIN els : els[k].id = id].ps)])
NilIfDash(s) == IF s = <<DASH>> THEN None ELSE Some(s)
TsMeaning(s) == IF s = <<DASH>> THEN None ELSE Some(TsFields(s))
VerbatimOf(s, f) ==
    LET m == Outcome(f, FALSE).msg[1]
        d == CHOOSE x \in Readings(s) : TRUE
        g == CHOOSE i \in DOMAIN d.toks[1] : d.toks[1][i] = GT
    IN /\ m.pri = Num(SubSeq(d.toks[1], 2, g - 1)) /\ m.fac = m.pri \div 8 /\ m.sev = m.pri % 8
       /\ m.ver = Num(SubSeq(d.toks[1], g + 1, Len(d.toks[1])))
       /\ m.ts = TsMeaning(d.toks[2])
       /\ m.host = NilIfDash(d.toks[3]) /\ m.app = NilIfDash(d.toks[4])
       /\ m.proc = NilIfDash(d.toks[5]) /\ m.msgid = NilIfDash(d.toks[6])
       /\ m.sd = SdMeaning(d.els)
       /\ m.msg = (IF d.msg = <<>> THEN None ELSE Some(d.msg))
FieldsVerbatim == IsOk(Fin.ctl) => VerbatimOf(in, Fin)

\* C03: a failure is reported at the byte just read and only then; every
\* unfailed input can be completed to an accepted one (the two exceptions,
\* a date that does not exist and a full-length duplicate id, are reported
\* at the byte after the field)
FailsAtLastByte == IsFail(st.ctl) => st.col = Len(in) - 1
CompletionOf(ctl) ==
  LET ph == ctl[1]
      n  == ctl[2]
      z  == <<45>>            \* any one field
      s2(k) == LET F[i \in 0..k] == IF i = 0 THEN <<>> ELSE F[i - 1] \o <<45, 32>> IN F[k]
      elem(x) == x \o <<93>>
      fromTs(x)  == x \o <<32>> \o s2(4) \o z
      full == <<49, 57, 57, 57, 45, 49, 48, 45, 49, 48, 84, 49, 48, 58, 49, 48, 58, 49, 48, 90>>
      cut(k) == fromTs(SubSeq(full, k, 20))
      u(x) == CASE x = "u1" -> <<128>> [] x = "u2" -> <<128, 128>> [] x = "u3" -> <<128, 128, 128>>
                [] x = "uE0" -> <<160, 128>> [] x = "uED" -> <<128, 128>>
                [] x = "uF0" -> <<144, 128, 128>> [] x = "uF4" -> <<128, 128, 128>>
  IN CASE ph = "start" -> Hdr5 \o z
       [] ph = "pri"   -> <<49, 62, 49, 32>> \o s2(5) \o z
       [] ph \in {"pri1", "pri19", "priLast", "priEnd"} -> <<62, 49, 32>> \o s2(5) \o z
       [] ph = "ver"   -> (IF n = 0 THEN <<49>> ELSE <<>>) \o <<32>> \o s2(5) \o z
       [] ph = "ts"    -> s2(5) \o z
       [] ph = "tsNil" -> fromTs(<<>>)
       [] ph = "tsY1"  -> cut(2) [] ph = "tsY2" -> cut(3) [] ph = "tsY3" -> cut(4) [] ph = "tsY4" -> cut(5)
       [] ph = "tsM"   -> cut(6) [] ph = "tsM0" -> fromTs(<<49>> \o SubSeq(full, 8, 20))
       [] ph = "tsM1"  -> cut(7) [] ph = "tsMd" -> cut(8) [] ph = "tsD" -> cut(9)
       [] ph = "tsD0"  -> fromTs(<<49>> \o SubSeq(full, 11, 20)) [] ph = "tsD1" -> cut(10)
       [] ph = "tsD3"  -> cut(10) [] ph = "tsT" -> cut(11) [] ph = "tsH" -> cut(12)
       [] ph \in {"tsH1", "tsH2"} -> cut(13) [] ph = "tsHc" -> cut(14) [] ph = "tsMi" -> cut(15)
       [] ph = "tsMi1" -> cut(16) [] ph = "tsMic" -> cut(17) [] ph = "tsS" -> cut(18) [] ph = "tsS1" -> cut(19)
       [] ph = "tsSe"  -> cut(20) [] ph = "tsF" -> (IF n = 0 THEN <<49>> ELSE <<>>) \o cut(20)
       [] ph = "tsOh"  -> fromTs(<<49, 48, 58, 48, 48>>) [] ph \in {"tsOh1", "tsOh2"} -> fromTs(<<48, 58, 48, 48>>)
       [] ph = "tsOc"  -> fromTs(<<58, 48, 48>>) [] ph = "tsOm" -> fromTs(<<48, 48>>) [] ph = "tsOm1" -> fromTs(<<48>>)
       [] ph = "tsEnd" -> fromTs(<<>>)
       [] ph = "host"  -> (IF n = 0 THEN z ELSE <<>>) \o <<32>> \o s2(3) \o z
       [] ph = "app"   -> (IF n = 0 THEN z ELSE <<>>) \o <<32>> \o s2(2) \o z
       [] ph = "proc"  -> (IF n = 0 THEN z ELSE <<>>) \o <<32>> \o s2(1) \o z
       [] ph = "msgid" -> (IF n = 0 THEN z ELSE <<>>) \o <<32>> \o z
       [] ph = "sd"    -> z
       [] ph = "id"    -> (IF n = MaxName THEN <<>> ELSE <<33>>) \o <<93>>     \* '!' is in no scenario
       [] ph = "pn"    -> (IF n = 0 THEN z ELSE <<>>) \o <<61, 34, 34, 93>>
       [] ph = "eq"    -> <<34, 34, 93>>
       [] ph = "val"   -> <<34, 93>>
       [] ph = "valU"  -> u(n) \o <<34, 93>>
       [] ph = "esc"   -> <<93, 34, 93>>
       [] ph = "valEnd"-> <<93>>
       [] ph = "utf8U" -> u(n)
       [] OTHER        -> <<>>
Completion == CompletionOf(st.ctl)
ImpossibleDate == /\ st.ctl[1] \in TsPhases /\ Len(st.regs.cur) >= 10
                  /\ LET c == st.regs.cur IN Two(c, 9) > DaysIn(100 * Two(c, 1) + Two(c, 3), Two(c, 6))
DateNeeds31 == st.ctl[1] = "tsD3" /\ LET c == st.regs.cur IN 31 > DaysIn(100 * Two(c, 1) + Two(c, 3), Two(c, 6))
FullDuplicate == st.ctl = <<"id", MaxName>> /\ st.regs.cur \in DOMAIN st.regs.sd
NoEarlyFailure ==
  (~IsFail(st.ctl) /\ ~ImpossibleDate /\ ~DateNeeds31 /\ ~FullDuplicate) => IsOk(Run(in \o Completion, cmp).ctl)

\* C03: the error names the part the input is in after col bytes: the kind is
\* recomputed from those bytes and the offending one alone
KindByRegion ==
  IsFail(Fin.ctl) =>
  LET c    == SubSeq(in, 1, Fin.col)
      b    == IF Len(in) > Fin.col THEN in[Fin.col + 1] ELSE 256
      sp   == Spaces(c)
      from(k) == SubSeq(c, IF k = 0 THEN 1 ELSE sp[k] + 1, Len(c))
      gts  == {g \in DOMAIN c : c[g] = GT}
      rest == from(6)
      whole == {e \in 0..Len(rest) : e > 0 /\ Elements(SubSeq(rest, 1, e)) # {}}
      e1   == IF whole = {} THEN 0 ELSE CHOOSE e \in whole : \A x \in whole : x <= e
      before == IF e1 = 0 THEN <<>> ELSE CHOOSE x \in Elements(SubSeq(rest, 1, e1)) : TRUE
      tail == SubSeq(rest, e1 + 1, Len(rest))             \* of an unfinished element
      names == {before[k].id : k \in DOMAIN before}
      idEnds == {i \in 2..Len(tail) : tail[i] = SP}
      id   == IF idEnds = {} THEN Tail(tail) ELSE SubSeq(tail, 2, (CHOOSE i \in idEnds : \A j \in idEnds : i <= j) - 1)
      \* quotes of the tail that are not escaped
      quotes == {i \in DOMAIN tail : tail[i] = DQ /\ Cardinality({j \in 1..i - 1 : \A l \in j..i - 1 : tail[l] = BS}) % 2 = 0}
      inValue == quotes # {} /\ Cardinality(quotes) % 2 = 1
      q1   == CHOOSE q \in quotes : \A x \in quotes : x <= q
      val  == SubSeq(tail, q1 + 1, Len(tail))
      k    == Fin.ctl[2]
  IN CASE c = <<>>     -> k = "pri"
       [] Len(sp) = 0 /\ gts = {} -> k = "prival"
       [] Len(sp) = 0 -> k = (IF Len(c) - (CHOOSE g \in gts : TRUE) = 1 THEN "parse" ELSE "version")
       [] Len(sp) = 1 -> k = (IF from(1) = <<DASH>> \/ IsTs(from(1)) THEN "parse"
                               \* a timestamp but for its day
                               ELSE IF Len(from(1)) >= 20 /\ In(Two(from(1), 9), 29, 31) /\ IsTs([from(1) EXCEPT ![9] = 50, ![10] = 56]) THEN "date"
                               ELSE "timestamp")
       [] Len(sp) = 2 -> k = "hostname"
       [] Len(sp) = 3 -> k = "appname"
       [] Len(sp) = 4 -> k = "procid"
       [] Len(sp) = 5 -> k = "msgid"
       [] Len(sp) >= 6 /\ rest = <<>> -> k = "structureddata"
       [] Len(sp) >= 6 /\ rest = <<DASH>> -> k = "parse"
       [] Len(sp) >= 6 /\ rest # <<>> /\ rest[1] = DASH -> k = "msgc"
       [] OTHER -> IF whole # {} /\ (tail = <<>> \/ tail[1] = SP) THEN k = (IF tail = <<>> THEN "structureddata" ELSE "msgc")
                   ELSE IF idEnds = {} THEN k = (IF id \in names THEN "dupid" ELSE "sdid")
                   ELSE IF inValue THEN k = (IF IsUtf8(val) THEN "escape" ELSE "sdparam")
                   ELSE k = "sdparam"

\* what follows makes no difference: with its completion, the input read so
\* far is a message of the grammar with these fields; a failed one has none
Doomed == ImpossibleDate \/ DateNeeds31 \/ FullDuplicate
CompletedExact == (~IsFail(st.ctl) /\ ~Doomed) =>
  LET s == in \o Completion IN Readings(s) # {} /\ VerbatimOf(s, Run(s, cmp))
Phases == TsPhases \cup {"start", "pri", "pri1", "pri19", "priLast", "priEnd", "host", "app", "proc", "msgid", "sd", "sdNil", "pn", "eq", "val", "esc", "valEnd", "elemEnd", "msg"}
AllCompletions == {CompletionOf(<<ph, n>>) : ph \in Phases \cup {"ver", "id"}, n \in {0, 1}} \cup {CompletionOf(<<"valU", u>>) : u \in {"u1", "u2", "u3", "uE0", "uED", "uF0", "uF4"}}
NoLateAcceptance == IsFail(st.ctl) => \A x \in AllCompletions : Readings(in \o x) = {}

\* C04: what best effort reports is what was complete: recompute the fields
\* from the bytes before the error column alone
BestEffortExact ==
  LET o   == Outcome(Fin, TRUE)
      c   == SubSeq(in, 1, Fin.col)
      sp  == Spaces(c)
      tok(k) == SubSeq(c, IF k = 1 THEN 1 ELSE sp[k - 1] + 1, sp[k] - 1)
      has(k) == Len(sp) >= k
      first  == IF has(1) THEN tok(1) ELSE c
  IN ~IsOk(Fin.ctl) =>
     /\ (o.msg # None) = IsPriVer(first)
     /\ o.msg # None =>
          LET m == o.msg[1] IN
          /\ m.ver = Num(SubSeq(first, (CHOOSE i \in DOMAIN first : first[i] = GT) + 1, Len(first)))
          \* a timestamp is reported once the byte after it was looked at
          /\ has(2) => m.ts = TsMeaning(tok(2))
          /\ ~has(2) => (m.ts # None => has(1) /\ IsTs(SubSeq(c, sp[1] + 1, Len(c))))
          /\ m.host  = (IF has(3) THEN NilIfDash(tok(3)) ELSE None)
          /\ m.app   = (IF has(4) THEN NilIfDash(tok(4)) ELSE None)
          /\ m.proc  = (IF has(5) THEN NilIfDash(tok(5)) ELSE None)
          /\ m.msgid = (IF has(6) THEN NilIfDash(tok(6)) ELSE None)
          \* structured data: exactly the complete elements, plus the complete
          \* parameters of the element the error is in
          /\ LET rest  == IF has(6) THEN SubSeq(c, sp[6] + 1, Len(c)) ELSE <<>>
                 whole == {e \in 0..Len(rest) : Elements(SubSeq(rest, 1, e)) # {}}
                 e1    == CHOOSE e \in whole : \A x \in whole : x <= e
                 els   == CHOOSE x \in Elements(SubSeq(rest, 1, e1)) : TRUE
                 tail  == SubSeq(rest, e1 + 1, Len(rest))
                 \* an element is begun by its id and one byte after it
                 opened == {i \in 2..Len(tail) - 1 : tail[1] = LSB /\ IsName(SubSeq(tail, 2, i)) /\ tail[i + 1] = SP}
                 i1    == CHOOSE i \in opened : TRUE
                 \* a parameter is complete once the byte after its closing quote was accepted
                 done  == {p \in i1..Len(tail) - 1 : tail[p + 1] = SP /\ Params(SubSeq(tail, i1 + 1, p)) # {}}
                 p1    == CHOOSE p \in done : \A x \in done : x <= p
                 part  == CHOOSE x \in Params(SubSeq(tail, i1 + 1, p1)) : TRUE
                 dup   == \E k \in DOMAIN els : els[k].id = SubSeq(tail, 2, i1)
                 all   == IF opened = {} \/ dup THEN els ELSE Append(els, [id |-> SubSeq(tail, 2, i1), ps |-> part])
             IN st.ctl[1] # "any" /\ (Fin.ctl[2] # "msgc") => m.sd = SdMeaning(all)
          /\ Fin.ctl[2] = "msgc" =>
               \E d \in Readings(SubSeq(c, 1, sp[7]) \o <<97>>) :
                  m.msg = (IF Len(c) = sp[7] THEN None ELSE Some(SubSeq(c, sp[7] + 1, Len(c)))) /\ m.sd = SdMeaning(d.els)
          /\ Fin.ctl[2] # "msgc" => m.msg = None

\* C04/C09: accepted input: same in both modes; a strict result has exactly one part
ModesAgree == /\ IsOk(Fin.ctl) => Outcome(Fin, TRUE) = Outcome(Fin, FALSE)
              /\ (Outcome(Fin, FALSE).msg = None) # (Outcome(Fin, FALSE).err = None)
              /\ Outcome(Fin, FALSE).err = Outcome(Fin, TRUE).err
\* C05: without a BOM the option changes nothing
NoBomNoChange == LET other == Run(in, ~cmp) IN
   (Len(Spaces(in)) < 7 \/ \A i \in 1..Len(in) - 2 : SubSeq(in, i, i + 2) # <<BOM1, BOM2, BOM3>>)
      => (Outcome(other, TRUE) = Outcome(Fin, TRUE))
=============================================================================
