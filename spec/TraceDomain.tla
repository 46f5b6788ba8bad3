---------------------------- MODULE TraceDomain ----------------------------
(***************************************************************************)
(* Domain and termination (C04).  The log holds recorded calls with their  *)
(* data abstracted to sizes: [k, pl, sl, t, r, c, huge, outcome, outlen]    *)
(* (huge: 12*r*c words cannot be addressed, r and c are cut off).  Each     *)
(* recorded call runs the control machine to its end (or is rejected at    *)
(* the door); the recorded outcome must agree with how it ended.           *)
(***************************************************************************)
EXTENDS Lyra2Control, Lyra2Ops, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE n
E == Log[n]

TInit == \E i \in 1..Len(Log) :
    /\ n = i
    /\ IF ~Log[i].huge /\ Accepts(Log[i].pl, Log[i].sl, Log[i].t, Log[i].r, Log[i].c)
       THEN CInit(Log[i].r, Log[i].t)
       ELSE /\ cpc = "rejected" /\ rows = 0 /\ passes = 0 /\ row = 0 /\ prev = 0 /\ rowa = 0
            /\ step = 0 /\ window = 0 /\ gap = 0 /\ tau = 0
\* Which row the sponge selects does not matter for termination (MCControl checks all of them).
TNext == /\ n' = n
         /\ \/ CFillRow \/ CFilled \/ CStartPass \/ CWanderRowTo(0) \/ CFinish
            \/ cpc \in {"done", "rejected"} /\ UNCHANGED cvars
TSpec == TInit /\ [][TNext]_<<n, cvars>>

\* row and tau identify the position in the (deterministic) behaviour
TView == <<n, cpc, row, tau>>
AcceptConforms == cpc = "done" => E.outcome = "ok" /\ E.outlen = E.k
RejectConforms == cpc = "rejected" => E.outcome = "panic"
InMatrix == cpc = "wander" => row \in 0..(rows-1) /\ prev \in 0..(rows-1)
Explain == [n |-> n, pc |-> cpc, spec |-> IF cpc = "rejected" THEN "panic" ELSE "ok",
            code |-> E.outcome]
=============================================================================
