----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Trace validation.  The log holds calls recorded from the real code:     *)
(*   [fn, input | k, pwd, salt, t, r, c,  outcome, out]                    *)
(* outcome is "ok" (out is the returned byte string), "panic", "hang" or   *)
(* "abort".  Every recorded call starts one behaviour of LyraMachine; when *)
(* the machine has finished, the recorded outcome must be the one the      *)
(* machine arrived at.                                                     *)
(***************************************************************************)
EXTENDS LyraMachine, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE n                  \* index of the recorded call

TInit == \E i \in 1..Len(Log) : n = i /\ Start(Log[i])
TNext == /\ n' = n
         /\ \/ Next
            \/ Final /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<n, vars>>
\* The machine is deterministic: position in the behaviour identifies the state.
TView == <<n, pc, stage, blk, Len(mat), row, tau, Len(buf), rowa>>

ValueConforms == pc = "done" => call.outcome = "ok" /\ call.out = buf
RejectConforms == pc = "rejected" => call.outcome = "panic"
Refines == [][(InLyra /\ pc # "squeeze") => (Ctl!CNext \/ UNCHANGED Ctl!cvars)]_vars
\* for the report: where the recorded key departs from the machine's
Shorter == IF Len(buf) < Len(call.out) THEN Len(buf) ELSE Len(call.out)
At == IF \E j \in 1..Shorter : buf[j] # call.out[j] THEN CHOOSE j \in 1..Shorter : buf[j] # call.out[j] ELSE Shorter + 1
Piece(s) == Hex(SubSeq(s, At, IF Len(s) < At + 47 THEN Len(s) ELSE At + 47))
Wrong == pc = "done" /\ call.outcome = "ok"
Explain == [n |-> n, pc |-> pc, at |-> IF Wrong THEN At - 1 ELSE 0,
            spec |-> IF pc # "done" THEN "" ELSE IF Wrong THEN Piece(buf) ELSE "key",
            code |-> IF Wrong THEN Piece(call.out) ELSE call.outcome]
=============================================================================
