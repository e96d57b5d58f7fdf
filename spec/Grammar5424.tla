----------------------------- MODULE Grammar5424 ----------------------------
(* The RFC 5424 grammar read declaratively: predicates over whole byte       *)
(* strings that know nothing about the control states of Rfc5424.            *)
EXTENDS Bytes, Limits5424, TLC, Naturals, Sequences, FiniteSets


RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

Spaces(s) == LET RECURSIVE F(_)
                 F(i) == IF i > Len(s) THEN <<>> ELSE (IF s[i] = SP THEN <<i>> ELSE <<>>) \o F(i + 1)
             IN F(1)
AllDigits(s) == \A i \in DOMAIN s : IsDigit(s[i])
\* a decimal number without leading zeros between lo and hi
IsNum(s, lo, hi) == s # <<>> /\ Len(s) <= 4 /\ AllDigits(s) /\ s = Dec(Num(s)) /\ In(Num(s), lo, hi)

IsPriVer(s) == \E g \in DOMAIN s : /\ s[g] = GT /\ s[1] = LT /\ g > 2
                  /\ IsNum(SubSeq(s, 2, g - 1), 0, 191) /\ IsNum(SubSeq(s, g + 1, Len(s)), 1, 999)

Two(s, i) == 10 * Dig(s[i]) + Dig(s[i + 1])
IsZone(s) == \/ s = <<CHZ>>
             \/ /\ Len(s) = 6 /\ s[1] \in {PLUS, DASH} /\ s[4] = COLON
                /\ AllDigits(SubSeq(s, 2, 3) \o SubSeq(s, 5, 6)) /\ Two(s, 2) <= 23 /\ Two(s, 5) <= 59
IsTs(s) == \/ s = <<DASH>>
           \/ /\ Len(s) >= 20
              /\ \A i \in 1..19 : CASE i \in {5, 8} -> s[i] = DASH [] i = 11 -> s[i] = CHT
                                    [] i \in {14, 17} -> s[i] = COLON [] OTHER -> IsDigit(s[i])
              /\ In(Two(s, 6), 1, 12)
              /\ In(Two(s, 9), 1, DaysIn(100 * Two(s, 1) + Two(s, 3), Two(s, 6)))
              /\ Two(s, 12) <= 23 /\ Two(s, 15) <= 59 /\ Two(s, 18) <= 59
              /\ \/ IsZone(SubSeq(s, 20, Len(s)))
                 \/ \E f \in 1..6 : /\ Len(s) > 20 + f /\ s[20] = DOT /\ AllDigits(SubSeq(s, 21, 20 + f))
                                    /\ IsZone(SubSeq(s, 21 + f, Len(s)))

IsText(s, max) == In(Len(s), 1, max) /\ \A i \in DOMAIN s : IsGraph(s[i])
IsName(s) == In(Len(s), 1, MaxName) /\ \A i \in DOMAIN s : IsNameByte(s[i])

\* UTF-8 by whole characters
IsChar(s) == \/ Len(s) = 1 /\ s[1] <= 127
             \/ /\ Len(s) \in 2..4 /\ \A i \in 2..Len(s) : In(s[i], 128, 191)
                /\ LET cp == CASE Len(s) = 2 -> (s[1] - 192) * 64 + (s[2] - 128)
                               [] Len(s) = 3 -> ((s[1] - 224) * 64 + (s[2] - 128)) * 64 + (s[3] - 128)
                               [] Len(s) = 4 -> (((s[1] - 240) * 64 + (s[2] - 128)) * 64 + (s[3] - 128)) * 64 + (s[4] - 128)
                   IN CASE Len(s) = 2 -> In(s[1], 192, 223) /\ cp >= 128
                        [] Len(s) = 3 -> In(s[1], 224, 239) /\ cp >= 2048 /\ ~In(cp, 55296, 57343)
                        [] Len(s) = 4 -> In(s[1], 240, 247) /\ In(cp, 65536, 1114111)
RECURSIVE IsUtf8(_)
IsUtf8(s) == s = <<>> \/ \E n \in 1..4 : n <= Len(s) /\ IsChar(SubSeq(s, 1, n)) /\ IsUtf8(SubSeq(s, n + 1, Len(s)))

\* PARAM-VALUE: escape pairs removed; special bytes only in pairs
RECURSIVE EscapedOk(_), Unescaped(_)
EscapedOk(s) == \/ s = <<>>
                \/ ~ToEscape(s[1]) /\ EscapedOk(Tail(s))
                \/ s[1] = BS /\ Len(s) >= 2 /\ ToEscape(s[2]) /\ EscapedOk(SubSeq(s, 3, Len(s)))
Unescaped(s) == IF s = <<>> THEN <<>>
                ELSE IF s[1] = BS THEN <<s[2]>> \o Unescaped(SubSeq(s, 3, Len(s)))
                ELSE <<s[1]>> \o Unescaped(Tail(s))
IsValue(s) == EscapedOk(s) /\ IsUtf8(s)

\* SD-PARAM list " n="v" n="v"" as the set of its readings (at most one)
RECURSIVE Params(_), Elements(_)
Params(s) == IF s = <<>> THEN {<<>>}
   ELSE UNION {{<<[n |-> SubSeq(s, 2, e - 1), v |-> Unescaped(SubSeq(s, e + 2, q - 1))]>> \o rest : rest \in Params(SubSeq(s, q + 1, Len(s)))} :
                <<e, q>> \in {x \in (3..Len(s)) \X (3..Len(s)) :
                    /\ s[1] = SP /\ s[x[1]] = EQ /\ x[1] + 1 < x[2] /\ s[x[1] + 1] = DQ /\ s[x[2]] = DQ
                    /\ IsName(SubSeq(s, 2, x[1] - 1)) /\ IsValue(SubSeq(s, x[1] + 2, x[2] - 1))}}
\* SD-ELEMENT list as the set of its readings
Elements(s) == IF s = <<>> THEN {<<>>}
   ELSE UNION {{<<[id |-> SubSeq(s, 2, i), ps |-> ps]>> \o rest : ps \in Params(SubSeq(s, i + 1, e - 1)), rest \in Elements(SubSeq(s, e + 1, Len(s)))} :
                <<i, e>> \in {x \in (2..Len(s)) \X (3..Len(s)) :
                    /\ s[1] = LSB /\ s[x[2]] = RSB /\ x[1] < x[2] /\ IsName(SubSeq(s, 2, x[1]))
                    /\ (x[1] + 1 = x[2] \/ s[x[1] + 1] = SP)}}
Distinct(els) == \A i, j \in DOMAIN els : els[i].id = els[j].id => i = j
SdReadings(s) == IF s = <<DASH>> THEN {<<>>} ELSE {els \in Elements(s) : els # <<>> /\ Distinct(els)}

IsMsg(s, c) == ~c \/ Len(s) < 3 \/ SubSeq(s, 1, 3) # <<BOM1, BOM2, BOM3>> \/ IsUtf8(SubSeq(s, 4, Len(s)))
=============================================================================
