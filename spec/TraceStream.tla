---------------------------- MODULE TraceStream -----------------------------
(* Judges recorded uses of the real stream parsers.  A trace is a           *)
(* configuration with the outcomes of parsing, alone, every text its        *)
(* streams contain, and a sequence of runs.  A run is one call of Parse on  *)
(* one of the parser objects: the bytes the reader delivered, how it ended, *)
(* and the events in their order: reads, results, the return of Parse; late *)
(* is what the same results look like when everything is over.              *)
(* Run 1 is the reference: a new parser and a reader that has it all.  In a *)
(* mute run the parser has no listener; in a warm run it has been used for  *)
(* more streams than the trace contains.  A cut run was ended early by a    *)
(* panic of its listener or its reader: it has delivered some of the        *)
(* results, and later runs show no trace of it.                             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
O == INSTANCE OctetCounting
N == INSTANCE NonTransparent

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, bad
vars == <<t, i, bad>>
T == Traces[t]

\* outcome of parsing p alone: [msg, err]
Known(p) == \E k \in DOMAIN T.pars : T.pars[k].in = p
Alone(p) == LET k == CHOOSE k \in DOMAIN T.pars : T.pars[k].in = p IN [msg |-> T.pars[k].msg, err |-> T.pars[k].err]
BadText(p) == Known(p) /\ Alone(p).err # ""

Octet == T.fmt = "octet"
Tr    == IF T.fmt = "lf" THEN 10 ELSE 0
Expected(s) == IF Octet THEN O!Delivered(O!EmissionsOf(s, [max |-> T.max, maxtxt |-> T.maxtxt]), T.be, BadText)
               ELSE N!Delivered(N!EmissionsOf(s, Tr))
TailText(run) == IF run.fail = "" THEN "unexpected EOF" ELSE run.fail
Want(e, run) ==
  CASE e.k = "verbatim" -> Alone(e.in)
    [] e.k = "error"    -> [msg |-> "", err |-> Alone(e.in).err]
    [] e.k = "with"     -> LET x == Alone(e.in) y == IF Octet THEN e.txt ELSE TailText(run)
                           IN IF x.err = "" THEN [msg |-> x.msg, err |-> y] ELSE x
    [] OTHER            -> [msg |-> "", err |-> e.txt]
NeedsAlone(e) == e.k \in {"verbatim", "error", "with"}

Results(run) == LET F(a, e) == IF e.e = "m" THEN Append(a, [msg |-> e.msg, err |-> e.err]) ELSE a IN FoldLeft(F, <<>>, run.evs)
\* bytes read before each result
ReadBy(run) == LET F(a, e) == IF e.e = "r" THEN [a EXCEPT !.n = @ + e.n] ELSE IF e.e = "m" THEN [a EXCEPT !.at = Append(@, a.n)] ELSE a
               IN FoldLeft(F, [n |-> 0, at |-> <<>>], run.evs).at
ReturnedLast(run) == run.evs # <<>> /\ run.evs[Len(run.evs)].e = "ret"

Tag(p, c) == {<<q, c>> : q \in p}
LooksTooLong(r) == Len(r.err) >= 16 /\ SubSeq(r.err, 1, 16) = "message too long"
\* properties that say what result k of a run has to be
About(es, rs, k) ==
  IF ~Octet THEN (IF k <= Len(es) THEN (IF es[k].k = "with" THEN {"C22"} ELSE {"C21"}) ELSE {"C21", "C22"})
                 \cup (IF Len(es) # Len(rs) /\ es # <<>> /\ es[Len(es)].k = "with" THEN {"C22"} ELSE {})
  ELSE (IF k > Len(es) THEN (IF es = <<>> THEN {"C16"} ELSE CASE es[Len(es)].k = "toolong" -> {"C18"} [] es[Len(es)].k \in {"frame", "with"} -> {"C17"} [] OTHER -> {"C16", "C17"})
        ELSE CASE es[k].k \in {"verbatim", "error"} -> {"C16"} [] es[k].k = "toolong" -> {"C18"} [] es[k].k = "frame" -> {"C17"} [] OTHER -> {"C17", "C19"})
       \cup (IF k <= Len(rs) /\ LooksTooLong(rs[k]) THEN {"C18"} ELSE {})
       \cup (IF T.be /\ \E j \in 1..Len(es) : j <= k /\ es[j].k = "verbatim" /\ BadText(es[j].in) THEN {"C19"} ELSE {})
Absolute(run) ==
  LET es == Expected(run.in)
      rs == Results(run)
      m  == IF Len(es) > Len(rs) THEN Len(es) ELSE Len(rs)
      D  == {k \in 1..m : k > Len(es) \/ k > Len(rs) \/ rs[k] # Want(es[k], run)}
      k  == CHOOSE k \in D : \A j \in D : k <= j
  IN IF \E e \in DOMAIN es : NeedsAlone(es[e]) /\ ~Known(es[e].in) THEN {<<"HARNESS", "pars">>}
     ELSE IF ~Octet /\ ~N!Framed(run.in) THEN {}
     ELSE IF D = {} THEN {} ELSE Tag(About(es, rs, k), IF k > Len(rs) THEN "missing" ELSE IF k > Len(es) THEN "extra" ELSE es[k].k)

\* a new parser and the same bytes: differs from the reference at most in
\* the reader's error a tail carries
SameAs(rs, ref, run) == /\ Len(rs) = Len(ref)
                        /\ \A k \in DOMAIN rs : \/ rs[k] = ref[k]
                                                \/ /\ run.fail # "" /\ ~Octet /\ k = Len(ref) /\ rs[k].msg = ref[k].msg
                                                   /\ ref[k].err = "unexpected EOF" /\ rs[k].err = run.fail
TooEarly(run) == LET es == Expected(run.in) at == ReadBy(run)
                 IN \E k \in DOMAIN at : k <= Len(es) /\ at[k] < es[k].at
\* a read is asked for while a settled result is not delivered, or after the
\* result that ends the stream
SettledBy(s) == IF Octet THEN LET par == [max |-> T.max, maxtxt |-> T.maxtxt] IN O!Delivered(O!Settled(s, par), T.be, BadText)
                ELSE N!Delivered(N!Settled(s, Tr))
Over(s) == IF ~Octet THEN 0
           ELSE LET es == Expected(s) ss == SettledBy(s)
                IN IF Len(ss) = Len(es) /\ es # <<>> /\ es[Len(es)].k # "verbatim" THEN es[Len(es)].at ELSE 0
TooLate(run) ==
  LET due  == SettledBy(run.in)
      over == Over(run.in)
      F(a, e) == IF e.e = "m" THEN [a EXCEPT !.m = @ + 1]
                 ELSE IF e.e # "r" THEN a
                 ELSE [a EXCEPT !.late = @ \/ (a.m < Len(due) /\ due[a.m + 1].at <= a.n) \/ (over > 0 /\ a.n >= over), !.n = @ + e.n]
  IN (Octet \/ N!Framed(run.in)) /\ FoldLeft(F, [n |-> 0, m |-> 0, late |-> FALSE], run.evs).late
FirstUse(k) == ~T.runs[k].warm /\ \A j \in 1..k - 1 : T.runs[j].obj # T.runs[k].obj
\* an earlier run of a new parser with the same bytes and the same end
Twin(k) == {j \in 1..k - 1 : FirstUse(j) /\ ~T.runs[j].mute /\ ~T.runs[j].cut /\ T.runs[j].in = T.runs[k].in /\ T.runs[j].fail = T.runs[k].fail}

JudgeRun(k) ==
  LET run == T.runs[k]
      rs  == Results(run)
      tw  == Twin(k)
  IN IF run.mute THEN (IF run.panic = "" THEN {} ELSE {<<"C23", "panic">>}) ELSE
     IF run.cut THEN
       (IF run.panic = "" THEN {} ELSE {<<"C23", "panic">>})
       \cup (IF \A j \in tw : IsPrefix(rs, Results(T.runs[j])) THEN {} ELSE {<<"C23", "reuse">>})
       \cup (IF run.late = rs THEN {} ELSE {<<"C23", "modified">>})
       \cup (IF run.hasbe = T.be THEN {} ELSE {<<"C23", "mode">>})
     ELSE
     (IF run.panic = "" THEN {} ELSE Tag({IF Octet THEN "C16" ELSE "C21", "C20", "C23"} \cup About(Expected(run.in), rs, Len(rs) + 1), "panic"))
     \cup (IF FirstUse(k) THEN Absolute(run) ELSE {})
     \cup (IF FirstUse(k) /\ k > 1 /\ run.in = T.runs[1].in /\ ~SameAs(rs, Results(T.runs[1]), run) THEN {<<"C20", "reader">>} ELSE {})
     \cup (IF FirstUse(k) /\ TooEarly(run) THEN {<<"C20", "early">>} ELSE {})
     \cup (IF ~FirstUse(k) /\ \E j \in tw : Results(T.runs[j]) # rs THEN {<<"C23", "reuse">>} ELSE {})
     \cup (IF run.panic = "" /\ TooLate(run) THEN {<<"C28", "late">>} ELSE {})
     \cup (IF ReturnedLast(run) \/ run.panic # "" THEN {} ELSE {<<"C23", "asynchronous">>})
     \cup (IF run.late = rs THEN {} ELSE {<<"C23", "modified">>})
     \cup (IF run.hasbe = T.be THEN {} ELSE {<<"C23", "mode">>})

Init == t \in 1..Len(Traces) /\ i = 1 /\ bad = {}
Judge == i \in 1..Len(T.runs) /\ bad' = bad \cup JudgeRun(i) /\ i' = i + 1 /\ UNCHANGED t
End   == i = Len(T.runs) + 1 /\ i' = 0 /\ UNCHANGED <<t, bad>>
Next  == Judge \/ End
Spec  == Init /\ [][Next]_vars

Verdict == i # 0 \/ PrintT("JUDGED " \o ToString(t) \o " " \o ToJson(bad))
=============================================================================
