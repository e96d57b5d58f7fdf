--------------------------- MODULE MCMessageCells ---------------------------
(* Design check of MessageCells: every history over two messages, two held  *)
(* pointers and small values.  The ghost vals says what each message holds  *)
(* if messages were plain values; with the program itself writing through   *)
(* no pointer and no structured data shared, the cells must agree with it.  *)
EXTENDS MessageCells

CONSTANT MaxOps
VARIABLES w, n, vals, last
vars == <<w, n, vals, last>>

a == 97  b == 98
Ms == 1..2
Hs == 1..2
\* the fields of small scope: two of one type, one of structured data, and numbers
Fs == {"host", "app", "sd", "pri", "ts"}
TS1 == [y |-> 2019, mo |-> 2, d |-> 28, h |-> 23, mi |-> 59, s |-> 59, us |-> 1, off |-> 0, nano |-> 7]
GiveVals(f) == CASE KindOf(f) = "text" -> {<<a>>, <<DASH>>, <<>>} [] KindOf(f) = "num" -> {0, 200} [] f = "ts" -> {TS1}
                 [] f = "sd" -> {NoFun, (<<a>> :> NoFun), (<<a>> :> (<<b>> :> <<RSB>>))}
Stamp2 == <<50, 48, 49, 57, 45, 48, 50, 45, 50, 56, 84, 50, 51, 58, 53, 57, 58, 53, 57, 90>>
Setters == [op : {"hostname"}, v : {<<b>>, <<SP>>}] \cup [op : {"priority"}, n : {5, 192}] \cup [op : {"timestamp"}, v : {Stamp2}]
      \cup [op : {"element"}, id : {<<a>>}] \cup [op : {"param"}, id : {<<a>>, <<b>>}, name : {<<b>>}, v : {<<a>>}]
Ops == [do : {"set"}, m : Ms, o : Setters] \cup {[do |-> "copy", m |-> 1, to |-> 2], [do |-> "copy", m |-> 2, to |-> 1]}
  \cup [do : {"hold"}, k : Hs, m : Ms, f : Fs] \cup [do : {"lend"}, k : Hs, m : Ms, f : Fs]
  \cup UNION {[do : {"give"}, m : Ms, f : {f}, v : GiveVals(f)] : f \in Fs}
  \cup [do : {"drop"}, m : Ms, f : {"host", "sd"}]
  \cup [do : {"write"}, k : Hs, kind : {"text"}, v : {<<a, b>>}] \cup [do : {"write"}, k : Hs, kind : {"sd"}, v : {NoFun}]

\* messages as values
GhostSet(v, o) ==
  CASE o.op = "priority" -> IF o.n \in 0..191 THEN [v EXCEPT !.pri = Some(o.n), !.fac = Some(o.n \div 8), !.sev = Some(o.n % 8)] ELSE v
    [] o.op = "timestamp" -> [v EXCEPT !.ts = Some(Stamp(Field("timestamp", o.v)[1].ts[1], 0))]
    [] OTHER -> LET m == Do(AsBuilt(v), o) IN [v EXCEPT !.host = m.host, !.app = m.app, !.sd = m.sd]
Ghost(vs, o) ==
  CASE o.do = "set"  -> [vs EXCEPT ![o.m] = GhostSet(@, o.o)]
    [] o.do = "copy" -> [vs EXCEPT ![o.to] = vs[o.m]]
    [] o.do = "give" -> [vs EXCEPT ![o.m][o.f] = Some(o.v)]
    [] o.do = "drop" -> [vs EXCEPT ![o.m][o.f] = None]
    [] o.do = "lend" -> IF CanLend(w, o.k, o.f) THEN [vs EXCEPT ![o.m][o.f] = HeldVal(w, o.k)] ELSE vs
    [] OTHER -> vs

Init == w = World(2, 2) /\ n = 0 /\ vals = [i \in Ms |-> View(w, i)] /\ last = [do |-> "none"]
Next == \E o \in Ops : n < MaxOps /\ w' = Act(w, o) /\ vals' = Ghost(vals, o) /\ n' = n + 1
                       /\ last' = IF last.do = "write" \/ o.do = "write" THEN [do |-> "write"] ELSE o
Spec == Init /\ [][Next]_vars
\* cells nobody points to may be forgotten
Reach == {w.msgs[i][f] : i \in Ms, f \in PtrFields} \cup {w.held[k][2] : k \in {k \in Hs : w.held[k] # <<>>}}
Shape == [i \in Ms |-> [f \in PtrFields |-> CHOOSE g \in Ms \X PtrFields \cup {<<0, "none">>} :
             IF w.msgs[i][f] = 0 THEN g = <<0, "none">> ELSE g # <<0, "none">> /\ w.msgs[g[1]][g[2]] = w.msgs[i][f]]]
HeldShape == [k \in Hs |-> IF w.held[k] = <<>> THEN {} ELSE {g \in Ms \X PtrFields : w.msgs[g[1]][g[2]] = w.held[k][2]}]
SameHeld == w.held[1] # <<>> /\ w.held[1] = w.held[2]
AView == <<n, vals, [i \in Ms |-> View(w, i)], [k \in Hs |-> <<w.held[k] = <<>>, HeldVal(w, k)>>], Shape, HeldShape, SameHeld, last.do = "write">>

Types == /\ \A i \in Ms, f \in PtrFields : w.msgs[i][f] \in 0..Len(w.cells)
         /\ \A k \in Hs : w.held[k] = <<>> \/ w.held[k][2] \in 1..Len(w.cells)

SdShared == w.msgs[1].sd # 0 /\ w.msgs[1].sd = w.msgs[2].sd
\* without writes by the program and apart from structured data, messages are values
Values == last.do = "write" \/ \A i \in Ms : \A f \in PtrFields \ {"sd"} : Val(w, i, f) = vals[i][f]

\* what an operation on one message cannot change
Elsewhere == \A o \in Ops : o.do \in {"set", "give", "drop", "hold", "lend", "copy"} =>
  LET x   == Act(w, o)
      dst == CASE o.do = "copy" -> o.to [] o.do = "hold" -> 0 [] OTHER -> o.m
      sd  == w.msgs[IF dst = 0 THEN 1 ELSE dst].sd
      sdo == o.do = "set" /\ o.o.op \in SdOps
  IN /\ \A i \in Ms \ {dst} : \A f \in PtrFields :
          /\ x.msgs[i][f] = w.msgs[i][f]
          /\ (Val(x, i, f) = Val(w, i, f) \/ (sdo /\ f = "sd" /\ w.msgs[i].sd = sd))
     /\ \A k \in Hs : o.do # "hold" =>
          /\ x.held[k] = w.held[k]
          /\ (HeldVal(x, k) = HeldVal(w, k) \/ (sdo /\ w.held[k][2] = sd))
     /\ o.do = "set" => LET own == CASE o.o.op = "priority" -> NumFields [] o.o.op \in SdOps -> {"sd"} [] OTHER -> {OwnField[o.o.op]} IN
          \A f \in PtrFields \ own : x.msgs[o.m][f] = w.msgs[o.m][f] /\ Val(x, o.m, f) = Val(w, o.m, f)
\* a setter on a message means what it means on one that was built
SetMeans == \A i \in Ms, o \in Setters :
  LET x == Set(w, i, o)
      m == AsBuilt(View(w, i))
      d == Do(m, o)
  IN AsBuilt(View(x, i)) = d
\* structured data given before, even an empty one, is the one added to
SdStays == \A i \in Ms, o \in Setters : w.msgs[i].sd # 0 => Set(w, i, o).msgs[i].sd = w.msgs[i].sd

\* what is expressible can be written and read back
RoundTrip == \A i \in Ms :
  LET v == View(w, i) x == [v EXCEPT !.ver = 1] IN
  (ViewValid(x) /\ Expressible(x)) => Reading(Serialised(Plain(x))) = Some(Plain(x))
=============================================================================
