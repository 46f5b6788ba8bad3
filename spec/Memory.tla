------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* What a call may hold and what may remain.  A call with need n (matrix,  *)
(* inputs and key, in units) takes memory piece by piece, works, and ends  *)
(* by value or by panic.                                                   *)
(*                                                                         *)
(* Design = "free"       everything is given back (what the code does)     *)
(*          "keep"       one buffer is kept, as large as the largest call  *)
(*          "leakpanic"  a panic forgets what the call held                *)
(*          "cache"      every value is kept                               *)
(*          "copies"     the input is copied once per absorbed block       *)
(* Histories are unbounded: for "free" and "keep" the state space is       *)
(* finite without a limit on the number of calls.  The last three must     *)
(* violate.                                                                *)
(***************************************************************************)
EXTENDS Integers, MemoryRule
CONSTANTS Design, Needs
VARIABLES live, held, need, pc, high, kept
vars == <<live, held, need, pc, high, kept>>
Init == live = 0 /\ held = 0 /\ need = 0 /\ pc = "idle" /\ high = 0 /\ kept = 0
Max2(a, b) == IF a > b THEN a ELSE b
Enter(n) == /\ pc = "idle" /\ need' = n /\ high' = Max2(high, n) /\ pc' = "take" /\ held' = 0
            /\ UNCHANGED <<live, kept>>
\* twice its need: the matrix and a working copy
Full == IF Design = "copies" THEN need * need ELSE 2 * need
Take == /\ pc = "take"
        /\ held' = held + 1
        /\ pc' = IF held + 1 >= Full - kept THEN "work" ELSE "take"
        /\ UNCHANGED <<live, need, high, kept>>
End(panic) == /\ pc = "work" /\ pc' = "idle" /\ held' = 0 /\ need' = 0 /\ high' = high
              /\ kept' = IF Design = "keep" THEN Max2(kept, need) ELSE 0
              /\ live' = CASE Design = "keep" -> Max2(kept, need)
                           [] Design = "leakpanic" -> live + (IF panic THEN held ELSE 0)
                           [] Design = "cache" -> live + 1
                           [] OTHER -> 0
Next == (\E n \in Needs : Enter(n)) \/ Take \/ (\E p \in BOOLEAN : End(p))
Spec == Init /\ [][Next]_vars
Proportionate == pc = "work" => PeakAllowed(held, need)
Temporary     == pc = "idle" => RestAllowed(live, high)
=============================================================================
