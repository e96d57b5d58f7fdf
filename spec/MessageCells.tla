---------------------------- MODULE MessageCells ----------------------------
(* Messages as Go programs have them: a message is a struct of pointers, so *)
(* messages may share what they point to - after a copy of the struct, when *)
(* a pointer taken from one message is assigned to another one, or when the *)
(* program assigns a pointer of its own.  This module has the cells that are *)
(* pointed to, messages as maps from fields to cells, and pointers held by  *)
(* the program; the setters of Builder5424 act on the messages.  A setter   *)
(* lets a field point to a new cell; only structured data is changed in its *)
(* place (a Go map), so only that is seen through other messages sharing it. *)
EXTENDS Builder5424

\* TRUE is another design, with setters that overwrite what a field points to:
\* checked to be wrong
CONSTANT InPlace

TextFields == {"host", "app", "proc", "msgid", "msg"}
NumFields  == {"pri", "fac", "sev"}
PtrFields  == TextFields \cup NumFields \cup {"ts", "sd"}
KindOf(f)  == IF f \in TextFields THEN "text" ELSE IF f \in NumFields THEN "num" ELSE f
\* the field a header setter sets
OwnField == [timestamp |-> "ts", hostname |-> "host", appname |-> "app", procid |-> "proc", msgid |-> "msgid", message |-> "msg"]

\* a world: cells (a sequence of values), msgs (per message: its cells, 0 for
\* nil, and the version, which is a plain number), held (pointers: <<kind, cell>>
\* or <<>>)
NilMsg == [f \in PtrFields |-> 0] @@ ("ver" :> 0)
World(nm, nh) == [cells |-> <<>>, msgs |-> [i \in 1..nm |-> NilMsg], held |-> [k \in 1..nh |-> <<>>]]

\* a timestamp in a cell keeps its nanoseconds
Stamp(ts, nano) == ts @@ ("nano" :> nano)

Val(w, i, f) == IF w.msgs[i][f] = 0 THEN None ELSE Some(w.cells[w.msgs[i][f]])
HeldVal(w, k) == IF w.held[k] = <<>> THEN None ELSE Some(w.cells[w.held[k][2]])
\* what the accessors of a message read
View(w, i) == [f \in PtrFields |-> Val(w, i, f)] @@ ("ver" :> w.msgs[i].ver)

\* ------------------------------------------------------------ operations
New(w, i, f, v) == [w EXCEPT !.cells = Append(@, v), !.msgs[i][f] = Len(w.cells) + 1]

Store(w, i, f, v) == IF InPlace /\ w.msgs[i][f] # 0 THEN [w EXCEPT !.cells[w.msgs[i][f]] = v] ELSE New(w, i, f, v)

\* the message the setters of Builder5424 see
Micro(t) == [x \in DOMAIN t \ {"nano"} |-> t[x]]
AsBuilt(v) == [pri |-> v.pri, ver |-> v.ver, ts |-> IF v.ts = None THEN None ELSE Some(Micro(v.ts[1])), host |-> v.host, app |-> v.app,
               proc |-> v.proc, msgid |-> v.msgid, sd |-> v.sd, msg |-> v.msg]

Set(w, i, o) ==
  CASE o.op = "priority" -> IF o.n \in 0..191 THEN Store(Store(Store(w, i, "pri", o.n), i, "fac", o.n \div 8), i, "sev", o.n % 8) ELSE w
    [] o.op = "compute"  -> Store(Store(Store(w, i, "pri", o.n), i, "fac", o.n \div 8), i, "sev", o.n % 8)
    [] o.op = "version"  -> IF o.n \in 1..999 THEN [w EXCEPT !.msgs[i].ver = o.n] ELSE w
    [] o.op = "timestamp" -> LET x == Field("timestamp", o.v) IN
                             IF x = None \/ x[1].ts = None THEN w ELSE Store(w, i, "ts", Stamp(x[1].ts[1], 0))
    [] o.op = "message"  -> IF o.v = <<>> THEN w ELSE Store(w, i, "msg", o.v)
    [] o.op \in SdOps    -> LET m  == AsBuilt(View(w, i))
                                m2 == Do(m, o)
                                c  == w.msgs[i].sd
                            IN IF m2.sd = m.sd THEN w ELSE IF c = 0 THEN Store(w, i, "sd", m2.sd[1]) ELSE [w EXCEPT !.cells[c] = m2.sd[1]]
    [] OTHER             -> IF Conforms(o.op, o.v) /\ o.v # <<DASH>> THEN Store(w, i, OwnField[o.op], o.v) ELSE w

\* *dst = *src
CopyMsg(w, src, dst) == [w EXCEPT !.msgs[dst] = w.msgs[src]]
\* p = m.f
Hold(w, k, i, f) == [w EXCEPT !.held[k] = IF w.msgs[i][f] = 0 THEN <<>> ELSE <<KindOf(f), w.msgs[i][f]>>]
\* m.f = p; the types must agree
CanLend(w, k, f) == w.held[k] # <<>> /\ w.held[k][1] = KindOf(f)
Lend(w, k, i, f) == [w EXCEPT !.msgs[i][f] = w.held[k][2]]
\* v := ...; m.f = &v
Give(w, i, f, v) == IF f = "ver" THEN [w EXCEPT !.msgs[i].ver = v] ELSE New(w, i, f, v)
\* m.f = nil
Drop(w, i, f) == [w EXCEPT !.msgs[i][f] = 0]
\* *p = v
Write(w, k, v) == [w EXCEPT !.cells[w.held[k][2]] = v]
\* m = what strict parsing of s returns, if anything
RECURSIVE TakeOver(_, _, _, _)
TakeOver(w, i, fs, m) ==
  IF fs = <<>> THEN w
  ELSE LET f == fs[1] IN TakeOver(IF m[f] = None THEN Drop(w, i, f) ELSE New(w, i, f, m[f][1]), i, Tail(fs), m)
ParseInto(w, i, s) ==
  LET x == Reading(s) IN
  IF x = None THEN w
  ELSE LET m == [x[1] EXCEPT !.ts = IF @ = None THEN None ELSE Some(Stamp(@[1], 0))]
           u == TakeOver([w EXCEPT !.msgs[i].ver = m.ver], i, <<"ts", "host", "app", "proc", "msgid", "sd", "msg">>, m)
       IN Set(u, i, [op |-> "priority", n |-> m.pri[1]])

Act(w, o) ==
  CASE o.do = "set"   -> Set(w, o.m, o.o)
    [] o.do = "copy"  -> CopyMsg(w, o.m, o.to)
    [] o.do = "hold"  -> Hold(w, o.k, o.m, o.f)
    [] o.do = "lend"  -> IF CanLend(w, o.k, o.f) THEN Lend(w, o.k, o.m, o.f) ELSE w
    [] o.do = "give"  -> Give(w, o.m, o.f, o.v)
    [] o.do = "drop"  -> Drop(w, o.m, o.f)
    [] o.do = "write" -> IF w.held[o.k] # <<>> /\ w.held[o.k][1] = o.kind THEN Write(w, o.k, o.v) ELSE w
    [] o.do = "parse" -> ParseInto(w, o.m, o.v)
    [] o.do = "none"  -> w

\* ---------------------------------------------------------- serialisation
ViewValid(v) == v.pri # None /\ v.pri[1] \in 0..191 /\ v.ver \in 1..999
TsOk(t) == t.y \in 0..9999 /\ t.off \in (0 - 1439)..1439
\* every part is one that RFC 5424 can express
Expressible(v) ==
  /\ v.ts # None => TsOk(v.ts[1])
  /\ v.host # None => Conforms("hostname", v.host[1])
  /\ v.app # None => Conforms("appname", v.app[1])
  /\ v.proc # None => Conforms("procid", v.proc[1])
  /\ v.msgid # None => Conforms("msgid", v.msgid[1])
  /\ v.sd # None => \A id \in DOMAIN v.sd[1] :
       /\ Conforms("sdid", id)
       /\ \A n \in DOMAIN v.sd[1][id] : /\ Conforms("sdpn", n)
                                        /\ v.sd[1][id][n] = <<>> \/ Conforms("sdpv", EscapeValue(v.sd[1][id][n]))
\* '-' says that there is none, and so do an empty text and an empty map
Plain(v) ==
  LET No(x, e) == IF x = Some(e) THEN None ELSE x
      m == AsBuilt(v)
  IN [m EXCEPT !.host = No(@, <<DASH>>), !.app = No(@, <<DASH>>), !.proc = No(@, <<DASH>>), !.msgid = No(@, <<DASH>>),
               !.msg = No(@, <<>>), !.sd = No(@, NoFun)]
=============================================================================
