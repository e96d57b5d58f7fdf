------------------------------- MODULE Bytes -------------------------------
(* Byte classes and small helpers shared by the format specifications.      *)
(* Inputs are sequences of integers 0..255, never strings.                  *)
EXTENDS Naturals, Sequences

Byte    == 0..255
SP      == 32
LT      == 60      \* '<'
GT      == 62      \* '>'
DASH    == 45      \* '-'
EQ      == 61      \* '='
DQ      == 34      \* '"'
BS      == 92      \* backslash
LSB     == 91      \* '['
RSB     == 93      \* ']'
COLON   == 58
DOT     == 46
PLUS    == 43
CHZ     == 90
CHT     == 84
LF      == 10
CR      == 13
NUL     == 0
BOM1    == 239
BOM2    == 187
BOM3    == 191

In(b, lo, hi) == lo <= b /\ b <= hi
IsDigit(b)    == In(b, 48, 57)
IsNzDigit(b)  == In(b, 49, 57)
Dig(b)        == b - 48
IsGraph(b)    == In(b, 33, 126)              \* printable US-ASCII
IsPrint(b)    == In(b, 32, 126)
IsVisible(b)  == In(b, 32, 126) \/ In(b, 128, 255)
ToEscape(b)   == b \in {DQ, BS, RSB}
IsNameByte(b) == IsGraph(b) /\ b \notin {EQ, RSB, DQ}   \* SD-NAME; SP is not graph

(* Optional values: <<>> is "nil", <<v>> is v.                              *)
None    == <<>>
Some(v) == <<v>>

(* A text register with '-' or nothing in it is reported as nil.            *)
TextOpt(t) == IF t = <<>> \/ t = <<DASH>> THEN None ELSE Some(t)

RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, 10 * acc + Dig(s[i]))
Num(s) == NumFrom(s, 1, 0)

IsLeap(y)  == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m \in {4, 6, 9, 11} THEN 30
                ELSE IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE 31

(* Number of continuation bytes still expected after UTF-8 lead byte b,     *)
(* encoded as the name of the state that consumes them; "bad" if b is no    *)
(* lead byte (RFC 3629).                                                    *)
Utf8Lead(b) == IF b <= 127 THEN "u0"
               ELSE IF In(b, 194, 223) THEN "u1"
               ELSE IF b = 224 THEN "uE0"
               ELSE IF b = 237 THEN "uED"
               ELSE IF In(b, 225, 239) THEN "u2"
               ELSE IF b = 240 THEN "uF0"
               ELSE IF In(b, 241, 243) THEN "u3"
               ELSE IF b = 244 THEN "uF4"
               ELSE "bad"
Utf8Tail(u, b) == CASE u = "u1"  -> IF In(b, 128, 191) THEN "u0" ELSE "bad"
                    [] u = "u2"  -> IF In(b, 128, 191) THEN "u1" ELSE "bad"
                    [] u = "u3"  -> IF In(b, 128, 191) THEN "u2" ELSE "bad"
                    [] u = "uE0" -> IF In(b, 160, 191) THEN "u1" ELSE "bad"
                    [] u = "uED" -> IF In(b, 128, 159) THEN "u1" ELSE "bad"
                    [] u = "uF0" -> IF In(b, 144, 191) THEN "u2" ELSE "bad"
                    [] u = "uF4" -> IF In(b, 128, 143) THEN "u2" ELSE "bad"
                    [] OTHER     -> "bad"
============================================================================
