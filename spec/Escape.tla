------------------------------- MODULE Escape -------------------------------
(* Texts of the implementation that quote stream bytes are compared in an   *)
(* escaped form: printable US-ASCII other than the backslash as it is, any  *)
(* other byte as \xHH.                                                      *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE SequencesExt
LOCAL Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL Hex == "0123456789abcdef"
EscByte(b) == IF b \in 32..126 /\ b # 92 THEN SubSeq(Ascii, b - 31, b - 31)
              ELSE "\\x" \o SubSeq(Hex, (b \div 16) + 1, (b \div 16) + 1) \o SubSeq(Hex, (b % 16) + 1, (b % 16) + 1)
Esc(s) == LET F(a, b) == a \o EscByte(b) IN FoldLeft(F, "", s)
=============================================================================
