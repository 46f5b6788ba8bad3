---------------------------- MODULE ScheduleInd ----------------------------
(***************************************************************************)
(* The schedule of Lyra2Control for EVERY number of rows, by induction     *)
(* (checked with Apalache over unbounded integers: Init => Inv,            *)
(* Inv /\ Next => Inv', Inv => Sound).                                     *)
(*                                                                         *)
(* Filling.  j = row - window is the position in the current window of w   *)
(* rows.  For w >= 4 the step is w/2 - g with g = gap, and                 *)
(*      (j * step) mod w  =  (-g*j + (w/2 if j is odd)) mod w,             *)
(* which is linear in j; w is a multiple of 4.  So row* is a linear        *)
(* function of j, is 0 for j = 0 only, and takes every value once.         *)
(*                                                                         *)
(* Wandering, R a multiple of 4 (all powers of two from 4 on), where the   *)
(* mask is the remainder: the walk of an odd pass is the same function     *)
(* with g = 1, that of an even pass is (-j) mod R.                         *)
(***************************************************************************)
EXTENDS Integers, ScheduleFn
VARIABLES
    \* @type: Str;
    pc,          \* "fill" or "wander" or "back" (the walk has returned)
    \* @type: Int;
    row,
    \* @type: Int;
    prev,
    \* @type: Int;
    rowa,
    \* @type: Int;
    step,
    \* @type: Int;
    window,
    \* @type: Int;
    gap,
    \* @type: Int;
    rows,        \* wandering: R
    \* @type: Bool;
    odd,         \* wandering: an odd pass
    \* @type: Int;
    cnt          \* wandering: rows written in this pass

\* ---- the two loops, as in Lyra2Control (rows are never run out of: R is arbitrary)
FillStep ==
    /\ pc = "fill"
    /\ LET next == Wrap(rowa + step, window)
       IN  /\ rowa' = next /\ prev' = row /\ row' = row + 1
           /\ IF next = 0
              THEN step' = window + gap /\ window' = 2 * window /\ gap' = -gap
              ELSE UNCHANGED <<step, window, gap>>
    /\ UNCHANGED <<pc, rows, odd, cnt>>
WalkStep ==
    /\ pc = "wander"
    /\ prev' = row
    /\ row' = Wrap(row + (IF odd THEN rows \div 2 - 1 ELSE -1), rows)
    /\ cnt' = cnt + 1
    /\ pc' = IF row' = 0 THEN "back" ELSE "wander"
    /\ UNCHANGED <<rowa, step, window, gap, rows, odd>>
Next == FillStep \/ WalkStep
\* must break the induction: the gap does not alternate; the step of a pass is even
NoGap == /\ pc = "fill"
         /\ LET next == Wrap(rowa + step, window)
            IN  /\ rowa' = next /\ prev' = row /\ row' = row + 1
                /\ IF next = 0 THEN step' = window + gap /\ window' = 2 * window /\ gap' = gap
                   ELSE UNCHANGED <<step, window, gap>>
         /\ UNCHANGED <<pc, rows, odd, cnt>>
EvenStep == /\ pc = "wander" /\ prev' = row /\ cnt' = cnt + 1
            /\ row' = Wrap(row + (IF odd THEN rows \div 2 ELSE -2), rows)
            /\ pc' = IF row' = 0 THEN "back" ELSE "wander"
            /\ UNCHANGED <<rowa, step, window, gap, rows, odd>>

\* filling after the second window has started (row = 4; TLC covers what comes before)
InitFill == /\ pc = "fill" /\ row = 4 /\ prev = 3 /\ rowa = 0 /\ window = 4 /\ gap = -1 /\ step = 3
            /\ rows = 4 /\ odd = TRUE /\ cnt = 0
\* @type: Int => Bool;
Multiple4(n) == n >= 4 /\ n % 4 = 0
InitWander == /\ pc = "wander" /\ row = 0 /\ prev = 0 /\ rowa = 0 /\ window = 4 /\ gap = 1 /\ step = 3
              /\ rows \in Int /\ Multiple4(rows) /\ odd \in BOOLEAN /\ cnt = 0

InvFill ==
    /\ Multiple4(window) /\ gap \in {1, -1}
    /\ window <= row /\ row < 2 * window
    /\ step = window \div 2 - gap
    /\ prev = row - 1
    /\ rowa = At(row - window, window, gap)
InvWander ==
    /\ Multiple4(rows)
    /\ 0 <= cnt /\ cnt <= rows
    /\ pc = "wander" => cnt < rows
    /\ pc = "back" => cnt = rows
    /\ row = IF odd THEN At(cnt, rows, 1) ELSE (IF cnt = 0 \/ cnt = rows THEN 0 ELSE rows - cnt)

\* an arbitrary state that satisfies the invariant
TypeOK == /\ pc \in {"fill", "wander", "back"} /\ odd \in BOOLEAN
          /\ row \in Int /\ prev \in Int /\ rowa \in Int /\ step \in Int /\ window \in Int /\ gap \in Int
          /\ rows \in Int /\ cnt \in Int
IndFill == TypeOK /\ pc = "fill" /\ InvFill
IndWander == TypeOK /\ pc \in {"wander", "back"} /\ InvWander
AnyFill == pc = "fill" /\ InvFill
AnyWander == pc \in {"wander", "back"} /\ InvWander

\* ---- what C13 and C04 need of the invariant
\* the rows read while filling exist, and are two different ones
SoundFill == prev = row - 1 /\ 0 <= rowa /\ rowa < window /\ window <= row /\ rowa # prev
SoundWander == 0 <= row /\ row < rows /\ (pc = "back" => cnt = rows)

\* ---- a window revisits every row once: At is injective on 0..w-1, for arbitrary w
\* (two arbitrary positions, kept in row and prev)
InitPair == /\ TypeOK /\ pc = "fill" /\ Multiple4(window) /\ gap \in {1, -1}
            /\ 0 <= row /\ row < window /\ 0 <= prev /\ prev < window /\ row # prev
NoStep == UNCHANGED <<pc, row, prev, rowa, step, window, gap, rows, odd, cnt>>
Different == At(row, window, gap) # At(prev, window, gap) /\ 0 <= At(row, window, gap) /\ At(row, window, gap) < window
=============================================================================
