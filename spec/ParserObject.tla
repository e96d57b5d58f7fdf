---------------------------- MODULE ParserObject ----------------------------
(* A parser object used by several goroutines, at the level of its memory:  *)
(* the registers of the machine, which every Parse call overwrites and then *)
(* advances byte by byte, the callers' buffers, and the messages returned.  *)
(* The format is a parameter: M0 is the initial machine state, MStep the    *)
(* transition for one byte, MEnd the outcome at the end of the input.       *)
(*                                                                          *)
(* Either all goroutines share one object (Shared) or each has its own.     *)
(* Locked, Resets, Copies and Fresh are the design decisions that make the  *)
(* object behave like a function; each can be switched off to see that the  *)
(* invariants notice.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Goroutines, Inputs,     \* Inputs: the texts goroutines parse
          Calls,                  \* calls per goroutine
          Shared,                 \* one object for all, or one each
          Locked,                 \* Parse takes the mutex (NewParser)
          Resets,                 \* Parse re-initialises all registers
          Copies,                 \* messages own their bytes
          Fresh,                  \* every call makes a message of its own, which
                                  \* the caller may change; otherwise the last
                                  \* message is given again for the same input
          M0, MStep(_, _), MEnd(_)

VARIABLES mem,      \* per object: machine state, left over between calls
          lock,     \* per object: goroutine holding the mutex, 0 for none
          pc,       \* per goroutine: "idle", "wait", "run"
          buf,      \* per goroutine: its input buffer
          arg,      \* per goroutine: what it put into the buffer
          pos,      \* per goroutine: bytes consumed
          res,      \* messages returned so far: [g, in, out, ref]
          left,     \* per goroutine: calls still to make
          memo      \* per object: the last input and its message, unless Fresh
vars == <<mem, lock, pc, buf, arg, pos, res, left, memo>>

Own(g)  == IF Shared THEN 0 ELSE g
Objects == {Own(g) : g \in Goroutines}
Init == /\ mem = [o \in Objects |-> M0] /\ lock = [o \in Objects |-> 0]
        /\ pc = [g \in Goroutines |-> "idle"]
        /\ buf = [g \in Goroutines |-> <<>>] /\ arg = [g \in Goroutines |-> <<>>]
        /\ pos = [g \in Goroutines |-> 0]
        /\ res = {} /\ left = [g \in Goroutines |-> Calls]
        /\ memo = [o \in Objects |-> <<>>]

\* the caller fills its (reused) buffer and calls Parse
Invoke(g) == /\ pc[g] = "idle" /\ left[g] > 0
             /\ \E w \in Inputs : buf' = [buf EXCEPT ![g] = w] /\ arg' = [arg EXCEPT ![g] = w]
             /\ pc' = [pc EXCEPT ![g] = "wait"]
             /\ left' = [left EXCEPT ![g] = @ - 1]
             /\ UNCHANGED <<mem, lock, pos, res, memo>>
Enter(g) == /\ pc[g] = "wait"
            /\ Locked => lock[Own(g)] = 0
            /\ lock' = IF Locked THEN [lock EXCEPT ![Own(g)] = g] ELSE lock
            /\ mem' = [mem EXCEPT ![Own(g)] = IF Resets THEN M0 ELSE [M0 EXCEPT !.regs = mem[Own(g)].regs]]
            /\ pos' = [pos EXCEPT ![g] = 0]
            /\ pc' = [pc EXCEPT ![g] = "run"]
            /\ UNCHANGED <<buf, arg, res, left, memo>>
Consume(g) == /\ pc[g] = "run" /\ pos[g] < Len(buf[g])
              /\ mem' = [mem EXCEPT ![Own(g)] = MStep(@, buf[g][pos[g] + 1])]
              /\ pos' = [pos EXCEPT ![g] = @ + 1]
              /\ UNCHANGED <<lock, pc, buf, arg, res, left, memo>>
Return(g) == /\ pc[g] = "run" /\ pos[g] = Len(buf[g])
             /\ LET again == memo[Own(g)] # <<>> /\ memo[Own(g)].in = arg[g]
                    out == IF again THEN memo[Own(g)].out ELSE MEnd(mem[Own(g)])
                IN /\ res' = res \cup {[g |-> g, n |-> left[g], in |-> arg[g], out |-> out]}
                   /\ memo' = IF Fresh THEN memo ELSE [memo EXCEPT ![Own(g)] = [in |-> arg[g], out |-> out]]
             /\ lock' = IF Locked THEN [lock EXCEPT ![Own(g)] = 0] ELSE lock
             /\ pc' = [pc EXCEPT ![g] = "idle"]
             /\ UNCHANGED <<mem, buf, arg, pos, left>>
\* the caller scribbles over its buffer between calls: messages that share
\* it instead of owning their bytes change with it
Scribble(g) == /\ pc[g] = "idle" /\ buf[g] # <<>>
               /\ buf' = [buf EXCEPT ![g] = <<>>]
               /\ res' = IF Copies THEN res ELSE {IF r.g = g THEN [r EXCEPT !.out = MEnd(M0)] ELSE r : r \in res}
               /\ UNCHANGED <<mem, lock, pc, arg, pos, left, memo>>
\* the caller changes a message it was given (and keeps no account of it)
Overwrite(g) == /\ pc[g] = "idle"
                /\ \E r \in res : /\ r.g = g /\ res' = res \ {r}
                                  /\ memo' = IF memo[Own(g)] # <<>> /\ memo[Own(g)].in = r.in
                                             THEN [memo EXCEPT ![Own(g)].out = MEnd(M0)] ELSE memo
                /\ UNCHANGED <<mem, lock, pc, buf, arg, pos, left>>
Next == \E g \in Goroutines : Invoke(g) \/ Enter(g) \/ Consume(g) \/ Return(g) \/ Scribble(g) \/ Overwrite(g)
Spec == Init /\ [][Next]_vars

\* what a call returns alone, on a new parser
RECURSIVE RunOn(_, _, _)
RunOn(m, w, k) == IF k > Len(w) THEN MEnd(m) ELSE RunOn(MStep(m, w[k]), w, k + 1)
Alone(w) == RunOn(M0, w, 1)

\* every result, at any later time, is the outcome of its input alone: the
\* object is a function (linearizability of a stateless object, no memory,
\* results frozen)
Functional == \A r \in res : r.out = Alone(r.in)
Exclusive  == Locked => \A g, h \in Goroutines : (g # h /\ Own(g) = Own(h)) => ~(pc[g] = "run" /\ pc[h] = "run")
\* Parse does not write to the caller's buffer
BufferKept == \A g \in Goroutines : pc[g] \in {"wait", "run"} => buf[g] = arg[g]
=============================================================================
