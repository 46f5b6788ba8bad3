------------------------------ MODULE ApiNest ------------------------------
(***************************************************************************)
(* Calls inside of calls.  The library calls nothing of its callers' - but *)
(* a call that panics runs the program's panic hook while it still holds   *)
(* all it holds, and then the destructors of its callers while the thread  *)
(* counts as panicking; both may call the library again.  Every call has   *)
(* the outcome that belongs to its arguments all the same.                 *)
(* A thread is a stack of calls; in ApiPure each level of it is a thread   *)
(* of its own.                                                             *)
(*                                                                         *)
(* Design = "fresh"      each call owns what it works on (the code)        *)
(*          "keep"       one matrix per thread, zeroed at the start: the   *)
(*                       call below never goes on, so this is sound too    *)
(*          "busy"       a flag of the thread, set while a call runs, that *)
(*                       changes what a call does                          *)
(*          "lock"       a lock held while a call runs                     *)
(*          "panicking"  a call does less while the thread unwinds         *)
(* The last three must fail.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Depth, Design, MaxCalls
VARIABLES busy, last, stack, mem, flag, holder, made
vars == <<busy, last, stack, mem, flag, holder, made>>
None == [id |-> "idle"]
NoOut == <<"none">>
Calls == { [id |-> "a", in |-> 2, bad |-> FALSE], [id |-> "b", in |-> 1, bad |-> FALSE], [id |-> "p", in |-> 1, bad |-> TRUE] }
Zero == <<"0", "0">>
Panic == <<"panic">>
Alone(c) == IF c.bad THEN Panic ELSE <<"ok", [i \in 1..2 |-> IF i <= c.in THEN c.id ELSE "0"]>>
Levels == Threads \X (1..Depth)
Pure == INSTANCE ApiPure WITH Threads <- Levels, Outcome <- Alone, Idle <- None, NoOutcome <- NoOut

Init == /\ busy = [x \in Levels |-> None] /\ last = [x \in Levels |-> NoOut]
        /\ stack = [t \in Threads |-> << >>] /\ mem = [x \in Levels |-> Zero]
        /\ flag = [t \in Threads |-> FALSE] /\ holder = None /\ made = 0
D(t) == Len(stack[t])
Top(t) == IF D(t) = 0 THEN "caller" ELSE stack[t][D(t)]
\* the caller's code runs: at the bottom, in the panic hook, in destructors
Callers(t) == Top(t) \in {"caller", "hook", "unwind"}
Panicking(t) == \E d \in 1..D(t) : stack[t][d] \in {"hook", "unwind"}
Set(t, pc) == stack' = [stack EXCEPT ![t][D(t)] = pc]
Slot(t) == IF Design = "keep" THEN <<t, 1>> ELSE <<t, D(t)>>

Enter(t, c) ==
    /\ Callers(t) /\ D(t) < Depth /\ made < MaxCalls
    /\ c.bad => ~Panicking(t)                  \* else the program ends: a panic within a panic
    /\ LET x == <<t, D(t) + 1>> IN busy' = [busy EXCEPT ![x] = c] /\ last' = [last EXCEPT ![x] = NoOut]
    /\ stack' = [stack EXCEPT ![t] = Append(@, "start")]
    /\ made' = made + 1
    /\ UNCHANGED <<mem, flag, holder>>
Start(t) ==
    /\ Top(t) = "start"
    /\ IF Design = "lock" THEN holder = None /\ holder' = [id |-> t] ELSE UNCHANGED holder
    /\ LET c == busy[<<t, D(t)>>]
           less == \/ Design = "busy" /\ flag[t]
                   \/ Design = "panicking" /\ Panicking(t)
       IN mem' = [mem EXCEPT ![Slot(t)] = [i \in 1..2 |-> IF i <= c.in /\ ~less THEN c.id ELSE "0"]]
    /\ flag' = [flag EXCEPT ![t] = TRUE]
    /\ Set(t, IF busy[<<t, D(t)>>].bad THEN "hook" ELSE "work")
    /\ UNCHANGED <<busy, last, made>>
\* the call's own frame is left: what it holds is given back
Release(t) == /\ holder' = IF Design = "lock" THEN None ELSE holder
              /\ flag' = [flag EXCEPT ![t] = FALSE]
Hooked(t) == /\ Top(t) = "hook" /\ Set(t, "unwind") /\ Release(t)
             /\ UNCHANGED <<busy, last, mem, made>>
End(t, o) == /\ busy' = [busy EXCEPT ![<<t, D(t)>>] = None] /\ last' = [last EXCEPT ![<<t, D(t)>>] = o]
             /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, D(t) - 1)]
             /\ UNCHANGED <<mem, made>>
Value(t) == Top(t) = "work" /\ End(t, <<"ok", mem[Slot(t)]>>) /\ Release(t)
Caught(t) == Top(t) = "unwind" /\ End(t, Panic) /\ UNCHANGED <<holder, flag>>
Done == made = MaxCalls /\ \A t \in Threads : D(t) = 0
Next == \/ \E t \in Threads : (\E c \in Calls : Enter(t, c)) \/ Start(t) \/ Hooked(t) \/ Value(t) \/ Caught(t)
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Refines == Pure!PInit /\
    [][\E x \in Levels : (\E c \in Calls : Pure!Begin(x, c)) \/ (\E o \in {last'[x]} : Pure!End(x, o))]_<<busy, last>>
=============================================================================
