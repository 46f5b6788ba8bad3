------------------------------ MODULE ApiImpl ------------------------------
(***************************************************************************)
(* How the library works inside, as far as calls could influence each      *)
(* other: a call obtains a matrix, writes its input to the first cells,    *)
(* may panic half-way, then works on all the cells it asked for.           *)
(*                                                                         *)
(* Design = "fresh"        a zeroed matrix per call (what the code does)   *)
(*          "thread"       one matrix per thread, reused as it is          *)
(*          "threadclear"  one per thread, zeroed at the start of a call   *)
(*          "global"       one matrix for all, zeroed at the start         *)
(*          "mutex"        one behind a lock that a panic poisons          *)
(*          "setting"      fresh, but the value depends on a setting       *)
(*          "print"        fresh, but a call leaves a trace in the world   *)
(* Only "fresh" and "threadclear" refine ApiPure and leave the world as it *)
(* is; the others are there so that the check is seen to fail where it     *)
(* must.  The environment changes its settings (variables, clock, heap     *)
(* contents, addresses) whenever it likes.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Design, MaxCalls
VARIABLES busy, last, pc, mem, at, locked, poisoned, made, setting, world
vars == <<busy, last, pc, mem, at, locked, poisoned, made, setting, world>>

None == [id |-> "idle"]
NoOut == <<"none">>
\* input cells, cells worked on, panics half-way
Calls == { [id |-> "a", in |-> 2, size |-> 2, bad |-> FALSE],
           [id |-> "b", in |-> 1, size |-> 2, bad |-> FALSE],
           [id |-> "p", in |-> 2, size |-> 2, bad |-> TRUE] }
Cells == 2
Panic == <<"panic">>
Value(m) == <<"ok", m>>
\* what the call gives in a fresh process
Alone(c) == IF c.bad THEN Panic ELSE Value([i \in 1..Cells |-> IF i <= c.in THEN c.id ELSE "0"])

Pure == INSTANCE ApiPure WITH Outcome <- Alone, Idle <- None, NoOutcome <- NoOut

Zero == [i \in 1..Cells |-> "0"]
Slot(t) == IF Design \in {"global", "mutex"} THEN CHOOSE x \in Threads : TRUE ELSE t

Init == /\ busy = [t \in Threads |-> None] /\ last = [t \in Threads |-> NoOut]
        /\ pc = [t \in Threads |-> "idle"]
        /\ mem = [t \in Threads |-> Zero] /\ at = [t \in Threads |-> 0]
        /\ locked = FALSE /\ poisoned = FALSE /\ made = 0
        /\ setting = FALSE /\ world = 0

Enter(t, c) ==
    /\ pc[t] = "idle" /\ made < MaxCalls
    /\ busy' = [busy EXCEPT ![t] = c] /\ last' = [last EXCEPT ![t] = NoOut]
    /\ pc' = [pc EXCEPT ![t] = "acquire"] /\ at' = [at EXCEPT ![t] = 0]
    /\ made' = made + 1
    /\ UNCHANGED <<mem, locked, poisoned>>
Acquire(t) ==
    /\ pc[t] = "acquire"
    /\ IF Design = "mutex" THEN ~locked /\ locked' = TRUE ELSE UNCHANGED locked
    /\ mem' = IF Design = "thread" THEN mem ELSE [mem EXCEPT ![Slot(t)] = Zero]
    /\ pc' = [pc EXCEPT ![t] = IF Design = "mutex" /\ poisoned THEN "throw" ELSE "write"]
    /\ UNCHANGED <<busy, last, at, poisoned, made>>
Write(t) ==
    /\ pc[t] = "write"
    /\ at' = [at EXCEPT ![t] = @ + 1]
    /\ mem' = [mem EXCEPT ![Slot(t)][at[t] + 1] = busy[t].id]
    /\ pc' = [pc EXCEPT ![t] = IF busy[t].bad THEN "throw"
                               ELSE IF at[t] + 1 = busy[t].in THEN "work" ELSE "write"]
    /\ UNCHANGED <<busy, last, locked, poisoned, made>>
Leave(t, o) ==
    /\ busy' = [busy EXCEPT ![t] = None] /\ last' = [last EXCEPT ![t] = o]
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ locked' = IF Design = "mutex" THEN FALSE ELSE locked
    /\ UNCHANGED <<mem, at, made>>
Throw(t) == pc[t] = "throw" /\ Leave(t, Panic) /\ poisoned' = (poisoned \/ Design = "mutex")
Work(t) == /\ pc[t] = "work"
           /\ Leave(t, Value(IF Design = "setting" /\ setting THEN [mem[Slot(t)] EXCEPT ![1] = "0"] ELSE mem[Slot(t)]))
           /\ UNCHANGED poisoned

Done == made = MaxCalls /\ \A t \in Threads : pc[t] = "idle"
Library == \E t \in Threads :
    \/ ((\E c \in Calls : Enter(t, c)) \/ Acquire(t) \/ Write(t) \/ Throw(t)) /\ UNCHANGED world
    \/ Work(t) /\ world' = world + (IF Design = "print" THEN 1 ELSE 0)
Environment == setting' = ~setting /\ UNCHANGED <<busy, last, pc, mem, at, locked, poisoned, made, world>>
Next == \/ Library /\ UNCHANGED setting
        \/ Environment
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* The library does nothing to the world
Silent == [][world' = world]_vars
\* Every step is a step of ApiPure or invisible
Refines == Pure!PInit /\
    [][\E t \in Threads : (\E c \in Calls : Pure!Begin(t, c)) \/ (\E o \in {last'[t]} : Pure!End(t, o))]_<<busy, last>>
=============================================================================
