------------------------------ MODULE TraceApi ------------------------------
(***************************************************************************)
(* Recorded histories against ApiPure (C09, C10).                          *)
(* TABLE: one line per distinct call, [o |-> outcome], recorded as the     *)
(*   only call of a fresh process.                                         *)
(* TRACE: one line per history, [ev |-> << [b, t, c] / [e, t, o] ... >>]   *)
(*   in the global order of the recording: begin of call c (an index of    *)
(*   TABLE) by thread t, or end of thread t's call with outcome o.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Table == ndJsonDeserialize(IOEnv.TABLE)
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES busy, last, h, l          \* h: history, l: next event
vars == <<busy, last, h, l>>
Threads == 1..atoi(IOEnv.THREADS)
AloneOutcome(c) == Table[c].o
P == INSTANCE ApiPure WITH Outcome <- AloneOutcome, Idle <- 0, NoOutcome <- ""

Ev == Log[h].ev[l]
More == l <= Len(Log[h].ev)
Init == P!PInit /\ h \in 1..Len(Log) /\ l = 1
IsBegin == More /\ "b" \in DOMAIN Ev
IsEnd   == More /\ "e" \in DOMAIN Ev
Step == /\ h' = h /\ l' = l + 1
        /\ \/ IsBegin /\ P!Begin(Ev.t, Ev.c)
           \/ IsEnd   /\ P!End(Ev.t, Ev.o)
Next == Step \/ (~More /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
TView == <<h, l>>

\* The next event can be taken.  (With CHECK_DEADLOCK this is implied; as an
\* invariant it names the offending event.)
NextEventAllowed ==
    /\ IsBegin => busy[Ev.t] = 0
    /\ IsEnd   => busy[Ev.t] # 0 /\ Ev.o = AloneOutcome(busy[Ev.t])
Explain == [n |-> h, pc |-> l, spec |-> IF IsEnd /\ busy[Ev.t] # 0 THEN AloneOutcome(busy[Ev.t]) ELSE "",
            code |-> IF IsEnd THEN Ev.o ELSE ""]
=============================================================================
