--------------------------- MODULE MCBuilder5424 ----------------------------
(* Design check of Builder5424: every sequence of operations over small     *)
(* sets of values up to a bounded length.                                   *)
EXTENDS Builder5424, Grammar5424

CONSTANT MaxOps
VARIABLES sc, m, n
vars == <<sc, m, n>>

a == 97  b == 98
Texts  == {<<>>, <<DASH>>, <<a>>, <<b, DASH>>, <<a, b, a>>, <<a, SP>>, <<127>>, <<233>>}
Names  == {<<>>, <<a>>, <<DASH>>, <<a, b>>, <<a, b, a>>, <<a, EQ>>, <<RSB>>}
Names2 == {<<a>>, <<b>>, <<a, EQ>>}
Values == {<<>>, <<a>>, <<BS, DQ>>, <<BS>>, <<DQ>>, <<BS, BS, b>>, <<RSB>>, <<BS, RSB, BS, RSB>>, <<195, 169>>, <<195>>, <<SP, EQ>>, <<BS, a>>}
T(s) == <<50, 48, 49, 57, 45, 48, 50, 45>> \o s
Stamps == {<<DASH>>, <<>>, T(<<50, 56, 84, 50, 51, 58, 53, 57, 58, 53, 57, 90>>),
           T(<<50, 57, 84, 50, 51, 58, 53, 57, 58, 53, 57, 90>>),
           T(<<49, 48, 84, 48, 48, 58, 48, 48, 58, 48, 48, 46, 48, 49, 48, 45, 48, 49, 58, 51, 48>>),
           T(<<49, 48, 84, 48, 48, 58, 48, 48, 58, 48, 48, 46, 49, 50, 51, 52, 53, 54, 55, 90>>),
           T(<<49, 48, 84, 48, 48, 58, 48, 48, 58, 48, 48, 90, SP>>)}
Op(o, v) == [op |-> o, v |-> v]
HeaderOps == [op : {"priority"}, n : {0, 1, 191, 192, 255}] \cup [op : {"version"}, n : {0, 1, 999, 1000}]
       \cup [op : {"timestamp"}, v : Stamps] \cup [op : {"hostname", "appname", "procid", "msgid", "message"}, v : Texts]
ElementOps == [op : {"element"}, id : Names] \cup [op : {"param"}, id : Names2 \cup {<<DASH>>}, name : Names2 \cup {<<>>}, v : Values]
MixedOps == [op : {"hostname"}, v : {<<a>>, <<>>}] \cup [op : {"message"}, v : {<<SP>>, <<LSB>>, <<239, 187, 191, 255>>}]
       \cup [op : {"param"}, id : {<<a>>, <<b>>}, name : {<<a>>, <<b>>}, v : {<<>>, <<BS, BS>>, <<DQ>>}] \cup [op : {"element"}, id : {<<a>>}]
Ready == [Blank EXCEPT !.pri = Some(34), !.ver = 1]
Scenarios == << [from |-> Blank, ops |-> HeaderOps], [from |-> Ready, ops |-> ElementOps], [from |-> Ready, ops |-> MixedOps] >>

Init == sc \in 1..3 /\ m = Scenarios[sc].from /\ n = 0
Next == \E o \in Scenarios[sc].ops : n < MaxOps /\ m' = Do(m, o) /\ n' = n + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
View == <<sc, m>>

\* every field always holds a value of its grammar
FieldsGrammatical ==
  /\ m.pri # None => m.pri[1] \in 0..191
  /\ m.ver \in 0..999
  /\ m.host # None => IsText(m.host[1], MaxHost) /\ m.host[1] # <<DASH>>
  /\ m.app # None => IsText(m.app[1], MaxApp) /\ m.app[1] # <<DASH>>
  /\ m.proc # None => IsText(m.proc[1], MaxProc) /\ m.proc[1] # <<DASH>>
  /\ m.msgid # None => IsText(m.msgid[1], MaxMsgid) /\ m.msgid[1] # <<DASH>>
  /\ m.msg # None => m.msg[1] # <<>>
  /\ m.sd # None => /\ DOMAIN m.sd[1] # {}
                    /\ \A id \in DOMAIN m.sd[1] : IsName(id) /\ \A p \in DOMAIN m.sd[1][id] : IsName(p) /\ IsUtf8(m.sd[1][id][p])

\* a header operation changes its own field and only if the value conforms
Own == [priority |-> "pri", version |-> "ver", timestamp |-> "ts", hostname |-> "host", appname |-> "app", procid |-> "proc",
        msgid |-> "msgid", message |-> "msg"]
HeaderFrame == \A o \in Scenarios[sc].ops \cap HeaderOps :
  LET x == Do(m, o)
      f == Own[o.op]
      good == CASE o.op = "priority" -> In(o.n, 0, 191) [] o.op = "version" -> In(o.n, 1, 999)
                [] o.op = "timestamp" -> IsTs(o.v) /\ o.v # <<DASH>>
                [] o.op = "message" -> o.v # <<>>
                [] OTHER -> o.v # <<DASH>> /\ IsText(o.v, CASE f = "host" -> MaxHost [] f = "app" -> MaxApp [] f = "proc" -> MaxProc [] f = "msgid" -> MaxMsgid)
      val  == CASE o.op = "priority" -> Some(o.n) [] o.op = "version" -> o.n [] o.op = "timestamp" -> Some(TsFields(o.v)) [] OTHER -> Some(o.v)
  IN x = IF good THEN [m EXCEPT ![f] = val] ELSE m

\* a structured data operation adds at most one element and one parameter
ElementFrame == \A o \in Scenarios[sc].ops \cap (ElementOps \cup MixedOps) : o.op \in SdOps =>
  LET x   == Do(m, o)
      old == SdOf(m)
      new == SdOf(x)
      isnew == o.id \in DOMAIN old \/ IsName(o.id)
  IN /\ [x EXCEPT !.sd = m.sd] = m
     /\ DOMAIN new = DOMAIN old \cup (IF IsName(o.id) THEN {o.id} ELSE {})
     /\ \A id \in DOMAIN old : id # o.id => new[id] = old[id]
     /\ o.id \in DOMAIN new =>
          LET was == IF o.id \in DOMAIN old THEN old[o.id] ELSE NoFun
          IN IF o.op = "param" /\ IsName(o.name) /\ o.name \notin DOMAIN was
             THEN new[o.id] = (o.name :> (IF IsValue(o.v) THEN Unescaped(o.v) ELSE <<>>)) @@ was
             ELSE new[o.id] = was

RoundTrip == IsValid(m) => Reading(Serialised(m)) = Some(m)
\* the order of two additions of different things does not matter
OrderFree == \A o, p \in Scenarios[sc].ops \cap MixedOps :
  (o.op = "param" /\ p.op = "param" /\ <<o.id, o.name>> # <<p.id, p.name>>) => Do(Do(m, o), p) = Do(Do(m, p), o)
=============================================================================
