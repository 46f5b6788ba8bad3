---------------------------- MODULE TraceEffects ----------------------------
(***************************************************************************)
(* What a process does while it is inside a call (C18).                    *)
(* TRACE: one line per process, [ev |-> << e1, e2, ... >>], the recorded   *)
(* system calls and checks in order, as strings:                           *)
(*   "begin", "end"     a call starts, ends                                *)
(*   "memory"           memory is taken or given back                      *)
(*   "wait"             scheduling, waiting, clocks, random numbers        *)
(*   "thread"           a thread of the process starts or ends             *)
(*   "look"             the kernel's information files are read            *)
(*   "left:..."         something was found changed after a call           *)
(*   anything else      acts on, or reads, the world outside               *)
(* Outside calls the process does as it likes.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Internal == {"memory", "wait", "thread", "look"}
VARIABLES n, l, inside
vars == <<n, l, inside>>
Init == n \in 1..Len(Log) /\ l = 1 /\ inside = FALSE
More == l <= Len(Log[n].ev)
Ev == Log[n].ev[l]
Next == \/ /\ More /\ n' = n /\ l' = l + 1
           /\ \/ Ev = "begin" /\ ~inside /\ inside' = TRUE
              \/ Ev = "end" /\ inside /\ inside' = FALSE
              \/ Ev \notin {"begin", "end"} /\ UNCHANGED inside
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* inside a call only internal events, and nothing is found changed after it
NoEffect == More => /\ inside => Ev \in Internal \cup {"end"}
                    /\ ~inside => Ev = "begin"
Explain == [n |-> n, pc |-> l, spec |-> "no effect", code |-> IF More THEN Ev ELSE ""]
=============================================================================
