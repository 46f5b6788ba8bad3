------------------------------ MODULE ApiPure ------------------------------
(***************************************************************************)
(* The library as its callers see it: any number of threads call its       *)
(* functions; a call ends with the one outcome (value or panic) that       *)
(* belongs to its arguments, whatever happened before or happens at the    *)
(* same time.                                                              *)
(***************************************************************************)
CONSTANTS Threads, Outcome(_), Idle, NoOutcome
VARIABLES busy,     \* thread -> call in progress, or Idle
          last      \* thread -> outcome of the last completed call, or NoOutcome
pvars == <<busy, last>>

PInit == busy = [t \in Threads |-> Idle] /\ last = [t \in Threads |-> NoOutcome]
Begin(t, c) == /\ busy[t] = Idle
               /\ busy' = [busy EXCEPT ![t] = c]
               /\ last' = [last EXCEPT ![t] = NoOutcome]
End(t, o) ==   /\ busy[t] # Idle
               /\ o = Outcome(busy[t])
               /\ busy' = [busy EXCEPT ![t] = Idle]
               /\ last' = [last EXCEPT ![t] = o]
=============================================================================
