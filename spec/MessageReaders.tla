--------------------------- MODULE MessageReaders ---------------------------
(* One message, its owner and goroutines that read it.  While nobody        *)
(* changes a message any number of goroutines may ask it whatever it can    *)
(* answer (validity, the five names, its text), each at its own pace; the   *)
(* owner changes it only when nobody reads.  Every question is answered     *)
(* from the message as it is, and asking writes nothing: no data race.      *)
(*                                                                          *)
(* Caches is the design decision that could break this: answers that are    *)
(* remembered in the message, in two steps (that there is one, and which),  *)
(* as the memory of a struct is written.                                    *)
EXTENDS Accessors, FiniteSets, TLC

CONSTANTS Readers, Ops, Asks, Changes, Caches

Questions == {"valid", "fm", "fl", "sm", "sl", "ss", "text"}

VARIABLES m,      \* the message
          memo,   \* per question: <<>>, <<"half">> or <<"full", answer>>
          pc,     \* per reader: <<>> or <<question, step, answer>>
          given,  \* answers given: [q, ans, m]
          asks, changes
vars == <<m, memo, pc, given, asks, changes>>

\* the admissible answers to a question; the text of a message is an error
\* exactly when it is not valid, and else determined by what it holds
Admissible(q, x) ==
  CASE q = "valid" -> {ToString(Valid(x))}
    [] q = "text"  -> {IF Valid(x) THEN ToString(<<x.pri, x.ver>>) ELSE "error"}
    [] q \in {"fm", "fl"} -> IF x.fac = None THEN {"nil"} ELSE IF StdFac(x) THEN FacAnswers(x)[q] ELSE {""}
    [] OTHER       -> IF x.sev = None THEN {"nil"} ELSE IF StdSev(x) THEN SevAnswers(x)[q] ELSE {""}
Answer(q, x) == CHOOSE a \in Admissible(q, x) : TRUE

Init == /\ m = New("5424") /\ memo = [q \in Questions |-> <<>>]
        /\ pc = [r \in Readers |-> <<>>] /\ given = {}
        /\ asks = Asks /\ changes = Changes
\* the owner's turn
Change == /\ changes > 0 /\ \A r \in Readers : pc[r] = <<>>
          /\ \E o \in Ops : m' = Do(m, o)
          /\ changes' = changes - 1 /\ UNCHANGED <<memo, pc, given, asks>>
Give(r, q, a) == /\ given' = given \cup {[q |-> q, ans |-> a, m |-> m]}
                 /\ pc' = [pc EXCEPT ![r] = <<>>]
Ask(r) == /\ pc[r] = <<>> /\ asks > 0 /\ asks' = asks - 1
          /\ \E q \in Questions : pc' = [pc EXCEPT ![r] = <<q, "look", "">>]
          /\ UNCHANGED <<m, memo, given, changes>>
Look(r) == /\ pc[r] # <<>> /\ pc[r][2] = "look"
           /\ LET q == pc[r][1]
              IN IF Caches /\ memo[q] # <<>>
                 THEN Give(r, q, IF Len(memo[q]) = 2 THEN memo[q][2] ELSE "")
                 ELSE /\ pc' = [pc EXCEPT ![r] = <<q, IF Caches THEN "store" ELSE "give", Answer(q, m)>>]
                      /\ UNCHANGED given
           /\ UNCHANGED <<m, memo, asks, changes>>
Store(r) == /\ pc[r] # <<>> /\ pc[r][2] \in {"store", "stored"}
            /\ LET q == pc[r][1]
               IN IF pc[r][2] = "store"
                  THEN memo' = [memo EXCEPT ![q] = <<"half">>] /\ pc' = [pc EXCEPT ![r][2] = "stored"]
                  ELSE memo' = [memo EXCEPT ![q] = <<"full", pc[r][3]>>] /\ pc' = [pc EXCEPT ![r][2] = "give"]
            /\ UNCHANGED <<m, given, asks, changes>>
Finish(r) == /\ pc[r] # <<>> /\ pc[r][2] = "give"
             /\ Give(r, pc[r][1], pc[r][3])
             /\ UNCHANGED <<m, memo, asks, changes>>
Next == Change \/ \E r \in Readers : Ask(r) \/ Look(r) \/ Store(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
\* what a question is answered depends on the message alone
Functional == \A g \in given : g.ans \in Admissible(g.q, g.m)
\* nobody is about to write what somebody else is about to read or write
Touches(r) == IF pc[r] = <<>> THEN "" ELSE pc[r][1]
NoRace == \A r, s \in Readers : r # s /\ Touches(r) # "" /\ Touches(r) = Touches(s)
                                => pc[r][2] \notin {"store", "stored"}
\* asking changes nothing
OnlyReads == \A q \in Questions : memo[q] = <<>>
=============================================================================
