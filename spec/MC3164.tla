------------------------------- MODULE MC3164 -------------------------------
(* Design check of Rfc3164 against a declarative reading of its grammar.     *)
EXTENDS Rfc3164
CONSTANT Shrink

VARIABLES sc, in, rfc, st
vars == <<sc, in, rfc, st>>

Stamp0 == <<79, 99, 116, 32, 49, 49, 32, 50, 50, 58, 49, 52, 58, 49, 53>>     \* "Oct 11 22:14:15"
Rfc0   == <<50, 48, 49, 57, 45, 49, 48, 45, 49, 49, 84, 50, 50, 58, 49, 52, 58, 49, 53, 90>>
P1     == <<60, 49, 62>>
P2     == P1 \o Stamp0 \o <<32>>
P3     == P2 \o <<104, 32>>
TB     == <<116, 91>>      \* "t["

Scenarios == <<
  [pre |-> <<>>, alpha |-> {60, 62, 48, 49, 50, 57, 32, 120}, depth |-> 7, rfc |-> {FALSE}],
  [pre |-> P1, alpha |-> {74, 97, 110, 117, 108, 32, 49, 50, 70, 101, 98}, depth |-> 6, rfc |-> BOOLEAN],
  [pre |-> P1 \o <<70, 101, 98, 32>>, alpha |-> {32, 48, 49, 50, 51, 57, 58}, depth |-> 8, rfc |-> {FALSE}],
  [pre |-> P1 \o SubSeq(Stamp0, 1, 7), alpha |-> {32, 48, 49, 50, 51, 53, 54, 57, 58}, depth |-> 7, rfc |-> {FALSE}],
  [pre |-> P1, alpha |-> {48, 49, 50, 51, 57, 45, 84}, depth |-> 9, rfc |-> {TRUE}],
  [pre |-> P1 \o SubSeq(Rfc0, 1, 17), alpha |-> {48, 49, 50, 53, 54, 57, 43, 45, 58, 90, 46, 32}, depth |-> 8, rfc |-> {TRUE}],
  [pre |-> P2, alpha |-> {97, 32, 45, 127, 128, 58}, depth |-> 7, rfc |-> {FALSE}],
  [pre |-> P3, alpha |-> {116, 58, 91, 93, 32, 45, 9, 200}, depth |-> 7, rfc |-> {FALSE}],
  [pre |-> P3 \o TB, alpha |-> {58, 93, 32, 45, 9, 116}, depth |-> 9, rfc |-> {FALSE}]
>>

Init == /\ sc \in 1..Len(Scenarios)
        /\ in = Scenarios[sc].pre
        /\ rfc \in Scenarios[sc].rfc
        /\ st = LET RECURSIVE R(_, _)
                    R(s, i) == IF i > Len(in) THEN s ELSE R(Step(s, in[i], rfc), i + 1)
                IN R(InitState, 1)
Read(b) == /\ ~IsFail(st.ctl)
           /\ Len(in) < Len(Scenarios[sc].pre) + Scenarios[sc].depth - Shrink
           /\ st' = Step(st, b, rfc)
           /\ in' = Append(in, b)
           /\ UNCHANGED <<sc, rfc>>
Next == \E b \in Scenarios[sc].alpha : Read(b)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ the grammar, declaratively
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
AllDigits(s) == \A i \in DOMAIN s : IsDigit(s[i])
IsNum(s, lo, hi) == s # <<>> /\ Len(s) <= 4 /\ AllDigits(s) /\ s = Dec(Num(s)) /\ In(Num(s), lo, hi)

IsClock(s) == /\ Len(s) = 8 /\ s[3] = COLON /\ s[6] = COLON
              /\ AllDigits(SubSeq(s, 1, 2) \o SubSeq(s, 4, 5) \o SubSeq(s, 7, 8))
              /\ Two(s, 1) <= 23 /\ Two(s, 4) <= 59 /\ Two(s, 7) <= 59
MonthNames == {Months[i] : i \in 1..12}
\* Mmm dd hh:mm:ss, dd blank padded
IsStamp(s) == /\ Len(s) = 15 /\ SubSeq(s, 1, 3) \in MonthNames /\ s[4] = SP /\ s[7] = SP
              /\ IsClock(SubSeq(s, 8, 15))
              /\ IsDigit(s[6]) /\ (s[5] = SP \/ IsNzDigit(s[5]))
              /\ In(Two(s, 5), 1, DaysIn(0, MonthOf(s)))
IsZone(s) == \/ s = <<CHZ>>
             \/ /\ Len(s) = 6 /\ s[1] \in {PLUS, DASH} /\ s[4] = COLON
                /\ AllDigits(SubSeq(s, 2, 3) \o SubSeq(s, 5, 6)) /\ Two(s, 2) <= 23 /\ Two(s, 5) <= 59
IsRfc(s) == /\ Len(s) >= 20 /\ \A i \in 1..10 : IF i \in {5, 8} THEN s[i] = DASH ELSE IsDigit(s[i])
            /\ s[11] = CHT /\ IsClock(SubSeq(s, 12, 19)) /\ IsZone(SubSeq(s, 20, Len(s)))
            /\ In(Two(s, 6), 1, 12) /\ In(Two(s, 9), 1, DaysIn(100 * Two(s, 1) + Two(s, 3), Two(s, 6)))
IsHost(s) == In(Len(s), 1, MaxHost) /\ \A i \in DOMAIN s : IsGraph(s[i])
IsTag(s)  == In(Len(s), 1, MaxTag) /\ \A i \in DOMAIN s : IsTagByte(s[i])
IsPlain(s) == s # <<>> /\ \A i \in DOMAIN s : IsVisible(s[i])
Rest(s, k) == SubSeq(s, k, Len(s))

\* the prefix readings of a text: [app, proc, msg]
TagOnly(s) == {[app |-> SubSeq(s, 1, k - 1), proc |-> <<>>, msg |-> Rest(s, k + 2)] :
                 k \in {k \in 2..Len(s) - 2 : s[k] = COLON /\ s[k + 1] = SP /\ IsTag(SubSeq(s, 1, k - 1)) /\ IsPlain(Rest(s, k + 2))}}
TagContent(s) ==
   {[app |-> SubSeq(s, 1, x[1] - 1), proc |-> SubSeq(s, x[1] + 1, x[2] - 1), msg |-> Rest(s, x[2] + 3)] :
      x \in {x \in (2..Len(s)) \X (2..Len(s)) :
               /\ x[1] < x[2] /\ x[2] + 3 <= Len(s) /\ s[x[1]] = LSB /\ IsTag(SubSeq(s, 1, x[1] - 1))
               /\ s[x[2]] = RSB /\ s[x[2] + 1] = COLON /\ s[x[2] + 2] = SP /\ IsPlain(Rest(s, x[2] + 3))}}
IsTextPart(s) == IsPlain(s) \/ TagContent(s) # {} \/ TagOnly(s) # {}
TextMeaning(s) ==
   LET ps == TagOnly(s) \cup TagContent(s)
   IN IF ps # {} THEN CHOOSE x \in ps : \A y \in ps : Len(x.proc) <= Len(y.proc)
      ELSE [app |-> <<>>, proc |-> <<>>, msg |-> s]

SpAt(s) == {i \in DOMAIN s : s[i] = SP}
GtAt(s) == {g \in DOMAIN s : s[g] = GT /\ IsNum(SubSeq(s, 2, g - 1), 0, 191)}
\* all readings
Readings(s) ==
  IF s = <<>> \/ s[1] # LT THEN {}
  ELSE {[pri |-> Num(SubSeq(s, 2, x[1] - 1)), ts |-> SubSeq(s, x[1] + 1, x[2] - 1), host |-> SubSeq(s, x[2] + 1, x[3] - 1), text |-> Rest(s, x[3] + 1)] :
     x \in {x \in GtAt(s) \X SpAt(s) \X SpAt(s) :
        /\ x[1] < x[2] /\ x[2] < x[3]
        /\ IsHost(SubSeq(s, x[2] + 1, x[3] - 1))
        /\ LET ts == SubSeq(s, x[1] + 1, x[2] - 1) IN IsStamp(ts) \/ (rfc /\ IsRfc(ts))
        /\ IsTextPart(Rest(s, x[3] + 1))}}

\* ------------------------------------------------------------- invariants
Fin == Finish(st)
AcceptsGrammar == IsOk(Fin.ctl) <=> Readings(in) # {}
Unambiguous    == Cardinality(Readings(in)) <= 1
NilIfDash(s) == IF s = <<DASH>> \/ s = <<>> THEN None ELSE Some(s)
ExactOf(s, f) ==
    LET m == Outcome(f, FALSE).msg[1]
        d == CHOOSE x \in Readings(s) : TRUE
        x == TextMeaning(d.text)
    IN /\ m.pri = d.pri /\ m.fac = d.pri \div 8 /\ m.sev = d.pri % 8
       /\ m.ts = Some(IF Len(d.ts) = 15 THEN StampFields(d.ts) ELSE RfcFields(d.ts))
       /\ m.host = NilIfDash(d.host) /\ m.app = NilIfDash(x.app) /\ m.proc = NilIfDash(x.proc) /\ m.msg = Some(x.msg)
FieldsExact == IsOk(Fin.ctl) => ExactOf(in, Fin)

FailsAtLastByte == IsFail(st.ctl) => st.col = Len(in) - 1
CompletionOf(ctl) ==
  LET ph == ctl[1]
      n  == ctl[2]
      tail == <<32, 104, 32, 120>>
      jan  == <<74, 97, 110, 32, 49, 48, 32, 49, 48, 58, 49, 48, 58, 49, 48>>    \* "Jan 10 10:10:10"
      rf   == <<49, 57, 57, 57, 45, 49, 48, 45, 49, 48, 84, 49, 48, 58, 49, 48, 58, 49, 48, 90>>
      st_(k) == SubSeq(jan, k, 15) \o tail
      rf_(k) == SubSeq(rf, k, 20) \o tail
  IN CASE ph = "start" -> P3 \o <<120>>
       [] ph = "pri"   -> <<49, 62>> \o st_(1)
       [] ph \in {"pri1", "pri19", "priLast", "priEnd"} -> <<62>> \o st_(1)
       [] ph = "ts"    -> st_(1)
       [] ph = "m2"    -> (LET i == CHOOSE i \in 1..12 : Months[i][1] = n IN SubSeq(Months[i], 2, 3)) \o st_(4)
       [] ph = "m3"    -> (LET i == CHOOSE i \in 1..12 : Months[i][1] = n /\ Months[i][2] = ctl[3] IN <<Months[i][3]>>) \o st_(4)
       [] ph = "stD0"  -> st_(4) [] ph = "stD" -> st_(5) [] ph = "stDs" -> <<49>> \o st_(7)
       [] ph \in {"stD12", "stD3"} -> st_(6) [] ph = "stSp" -> st_(7) [] ph = "stH" -> st_(8) [] ph \in {"stH1", "stH2"} -> st_(9)
       [] ph = "stHc"  -> st_(10) [] ph = "stMi" -> st_(11) [] ph = "stMi1" -> st_(12) [] ph = "stMic" -> st_(13)
       [] ph = "stS"   -> st_(14) [] ph = "stS1" -> st_(15) [] ph \in {"stEnd", "rEnd"} -> tail
       [] ph = "rY2" -> rf_(2) [] ph = "rY3" -> rf_(3) [] ph = "rY4" -> rf_(4) [] ph = "rYd" -> rf_(5)
       [] ph = "rM" -> rf_(6) [] ph = "rM0" -> <<49>> \o rf_(8) [] ph = "rM1" -> rf_(7) [] ph = "rMd" -> rf_(8)
       [] ph = "rD" -> rf_(9) [] ph = "rD0" -> <<49>> \o rf_(11) [] ph \in {"rD1", "rD3"} -> rf_(10) [] ph = "rT" -> rf_(11)
       [] ph = "rH" -> rf_(12) [] ph \in {"rH1", "rH2"} -> rf_(13) [] ph = "rHc" -> rf_(14) [] ph = "rMi" -> rf_(15)
       [] ph = "rMi1" -> rf_(16) [] ph = "rMic" -> rf_(17) [] ph = "rS" -> rf_(18) [] ph = "rS1" -> rf_(19) [] ph = "rZ" -> rf_(20)
       [] ph = "rOh" -> <<49, 48, 58, 48, 48>> \o tail [] ph \in {"rOh1", "rOh2"} -> <<48, 58, 48, 48>> \o tail
       [] ph = "rOc" -> <<58, 48, 48>> \o tail [] ph = "rOm" -> <<48, 48>> \o tail [] ph = "rOm1" -> <<48>> \o tail
       [] ph = "host" -> (IF n = 0 THEN <<104>> ELSE <<>>) \o <<32, 120>>
       [] ph = "text" -> <<120>>
       [] ph = "cont" -> <<93, 58, 32, 120>>
       [] OTHER -> <<>>
Completion == CompletionOf(st.ctl)
\* the day of the date read so far cannot be completed to an existing one
BadDate == LET c == st.regs.cur IN
  \/ /\ st.ctl[1] \in StampPhases \cup {"stEnd"} /\ Len(c) >= 6 /\ Two(c, 5) > DaysIn(0, MonthOf(c))
  \/ st.ctl[1] = "stD3" /\ DaysIn(0, MonthOf(c)) < 30
  \/ /\ st.ctl[1] \in RfcPhases \cup {"rEnd"} /\ Len(c) >= 10 /\ Two(c, 9) > DaysIn(100 * Two(c, 1) + Two(c, 3), Two(c, 6))
  \/ st.ctl[1] = "rD3" /\ DaysIn(100 * Two(c, 1) + Two(c, 3), Two(c, 6)) < 31
NoEarlyFailure == (~IsFail(st.ctl) /\ ~BadDate) => IsOk(Run(in \o Completion, rfc).ctl)

\* C08: the error names the part the input is in, recomputed from the bytes
\* before the column
KindByRegion ==
  IsFail(Fin.ctl) =>
  LET c    == SubSeq(in, 1, Fin.col)
      k    == Fin.ctl[2]
      gs   == GtAt(c)
      from == Rest(c, (CHOOSE g \in gs : TRUE) + 1)       \* behind the PRI
      \* ways to cut from into timestamp and rest
      cuts == {x \in DOMAIN from : from[x] = SP /\ LET ts == SubSeq(from, 1, x - 1) IN IsStamp(ts) \/ (rfc /\ IsRfc(ts))}
      rest == Rest(from, (CHOOSE x \in cuts : TRUE) + 1)
      day28 == IF IsDigit(from[1]) THEN [from EXCEPT ![9] = 50, ![10] = 56] ELSE [from EXCEPT ![5] = 50, ![6] = 56]
  IN CASE c = <<>> -> k = "pri"
       [] c # <<>> /\ gs = {} -> k = "prival"
       [] gs # {} /\ cuts = {} ->
            k = (IF from = <<>> THEN "timestamp"
                 ELSE IF ~IsDigit(from[1]) THEN (IF Len(from) < 15 THEN "timestamp" ELSE IF IsStamp(from) THEN "parse" ELSE "date")
                 ELSE IF Len(from) < 19 THEN "parse"
                 ELSE IF IsRfc(from) THEN "parse"
                 ELSE IF IsRfc(day28) THEN "date" ELSE "rfc3339")
       [] gs # {} /\ cuts # {} -> k = (IF \A i \in DOMAIN rest : rest[i] # SP THEN "hostname" ELSE IF rest[Len(rest)] = SP /\ Cardinality({i \in DOMAIN rest : rest[i] = SP}) = 1 THEN "tag" ELSE "parse")

CompletedExact == (~IsFail(st.ctl) /\ ~BadDate) =>
  LET s == in \o Completion IN Readings(s) # {} /\ ExactOf(s, Run(s, rfc))
AllCompletions == {CompletionOf(<<ph, n>>) : ph \in (StampPhases \cup RfcPhases \cup {"start", "pri", "pri1", "pri19", "priLast", "priEnd", "ts", "stEnd", "rEnd", "host", "text", "cont"}) \ {"m2", "m3"}, n \in {0, 1}}
                  \cup {CompletionOf(<<"m2", x>>) : x \in Mon1} \cup {CompletionOf(<<"m3", x[1], x[2]>>) : x \in Mon2}
NoLateAcceptance == IsFail(st.ctl) => \A x \in AllCompletions : Readings(in \o x) = {}

\* best effort: the fields completed before the error column
BestEffortExact ==
  LET o  == Outcome(Fin, TRUE)
      c  == SubSeq(in, 1, Fin.col)
      hs == {x \in GtAt(c) \X SpAt(c) : x[1] < x[2] /\ LET ts == SubSeq(c, x[1] + 1, x[2] - 1) IN IsStamp(ts) \/ (rfc /\ IsRfc(ts))}
  IN ~IsOk(Fin.ctl) =>
     /\ (o.msg # None) = (c # <<>> /\ c[1] = LT /\ GtAt(c) # {})
     /\ o.msg # None =>
        LET m == o.msg[1] IN
        /\ (m.ts # None) = (hs # {})
        /\ m.msg = None
        /\ hs # {} =>
             LET k  == (CHOOSE x \in hs : TRUE)[2]
                 ends == {e \in k + 1..Len(c) : c[e] = SP}
                 e1 == CHOOSE e \in ends : \A x \in ends : e <= x
                 text == Rest(c, e1 + 1)
             IN /\ m.host = (IF ends = {} THEN None ELSE NilIfDash(SubSeq(c, k + 1, e1 - 1)))
                /\ m.app  = (IF ends = {} \/ TagOnly(text) = {} THEN None ELSE NilIfDash((CHOOSE x \in TagOnly(text) : TRUE).app))
                /\ m.proc = None
ModesAgree == /\ IsOk(Fin.ctl) => Outcome(Fin, TRUE) = Outcome(Fin, FALSE)
              /\ (Outcome(Fin, FALSE).msg = None) # (Outcome(Fin, FALSE).err = None)
              /\ Outcome(Fin, FALSE).err = Outcome(Fin, TRUE).err

\* C07: WithRFC3339 only adds a second timestamp form
RfcOnlyAdds == LET other == Run(in, ~rfc)
                   ts1 == {g \in GtAt(in) : g < Len(in) /\ IsDigit(in[g + 1])}
               IN ts1 = {} => Outcome(other, TRUE) = Outcome(Fin, TRUE)
\* the day arithmetic: consecutive dates are consecutive days
ASSUME \A y \in {0 - 5, 0 - 4, 0, 1, 4, 99, 100, 399, 400, 1900, 1999, 2000, 2019, 2020, 2100, 9999} : \A m \in 1..12 :
         /\ \A d \in 1..DaysIn(y, m) - 1 : DayNo(y, m, d + 1) = DayNo(y, m, d) + 1
         /\ DayNo(IF m = 12 THEN y + 1 ELSE y, IF m = 12 THEN 1 ELSE m + 1, 1) = DayNo(y, m, DaysIn(y, m)) + 1
=============================================================================
