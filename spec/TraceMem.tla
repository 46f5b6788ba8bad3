------------------------------ MODULE TraceMem ------------------------------
(***************************************************************************)
(* Recorded histories with their memory use (C17).                         *)
(* TRACE: one line per process, [ev |-> << [need, peak, live, reps], ...>>]*)
(*   in order: reps calls with that need, the largest peak among them, and *)
(*   what was in use after them.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, MemoryRule
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, l, high
vars == <<n, l, high>>
Init == n \in 1..Len(Log) /\ l = 1 /\ high = 0
More == l <= Len(Log[n].ev)
Ev == Log[n].ev[l]
Top == IF Ev.need > high THEN Ev.need ELSE high
Next == \/ More /\ n' = n /\ l' = l + 1 /\ high' = Top
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Proportionate == More => PeakAllowed(Ev.peak, Ev.need)
Temporary     == More => RestAllowed(Ev.live, Top)
Explain == [n |-> n, pc |-> l, spec |-> IF More THEN Factor * Top + Base ELSE 0, code |-> IF More THEN Ev.live ELSE 0]
=============================================================================
