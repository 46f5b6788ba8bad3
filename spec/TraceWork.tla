----------------------------- MODULE TraceWork -----------------------------
(***************************************************************************)
(* Work.  A key for time cost T needs T passes, one after the other, each  *)
(* of at least one sponge round.  The log holds recorded calls with time   *)
(* costs far too large to finish: [units, ms, outcome], units = T in       *)
(* millions of passes (cut off at 2^30), ms = time after which the call    *)
(* returned, or was given up ("hang").  Even at 10^6 passes per            *)
(* millisecond - a nanosecond per pass, an order of magnitude below what   *)
(* one round of dependent 64-bit operations takes - a call must not have   *)
(* returned before its passes were made.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, left, clock
E == Log[n]
TInit == \E i \in 1..Len(Log) : n = i /\ left = Log[i].units /\ clock = 0
Tick == clock < E.ms /\ clock' = clock + 1 /\ left' = IF left > 0 THEN left - 1 ELSE 0
TNext == n' = n /\ (Tick \/ (clock = E.ms /\ UNCHANGED <<left, clock>>))
TSpec == TInit /\ [][TNext]_<<n, left, clock>>
AllPassesMade == clock = E.ms /\ E.outcome = "ok" => left = 0
NoRefusal == E.outcome \in {"ok", "hang"}
Explain == [n |-> n, pc |-> clock, spec |-> left, code |-> E.outcome]
=============================================================================
