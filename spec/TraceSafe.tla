------------------------------- MODULE TraceSafe -------------------------------
(***************************************************************************)
(* C20: recorded runs under memory monitors.  A run is a sequence of       *)
(* calls, and an event of a run is either the outcome of a call or a       *)
(* report of the monitor.  The machines (Access for the matrix, ApiImpl    *)
(* for calls of several threads) touch only words inside of what a call    *)
(* owns, after they were written, and by one thread at a time; so no       *)
(* report of a monitor is a behaviour of theirs.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, IOUtils, Json, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)
\* what monitors report: an access outside of what is owned, a use of a word never written,
\* two threads at one word, anything else undefined
Reports == {"outside", "stale", "race", "undefined"}

VARIABLES n, pc, seen
vars == <<n, pc, seen>>

Init == n \in 1..Len(Runs) /\ pc = 1 /\ seen = "nothing"
Step == /\ pc <= Len(Runs[n].events)
        /\ seen' = Runs[n].events[pc]
        /\ pc' = pc + 1 /\ n' = n
End  == pc > Len(Runs[n].events) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ End]_vars

Known == seen \in Reports \cup {"nothing", "ok", "panic", "ended"}
Safe == seen \notin Reports
=============================================================================
