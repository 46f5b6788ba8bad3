----------------------------- MODULE MCSchedule -----------------------------
(***************************************************************************)
(* The schedule of Lyra2Control for large matrices (C13, C04).             *)
(*                                                                         *)
(* Filling does not look at R except to stop, so one behaviour that fills  *)
(* MaxFill rows passes through the filling of every smaller matrix.  The   *)
(* window invariant is stated in closed form: the j-th row revisited in a  *)
(* window of w rows is (j * step) mod w; step is odd and w a power of two, *)
(* so the w rows are all different (Fair, evaluated when a window starts). *)
(*                                                                         *)
(* A wandering pass depends on R and on the parity of the pass alone: one  *)
(* behaviour per R in 3..MaxR and parity, with a counter in place of the   *)
(* set of written rows: the map from row to next row is a function, so a   *)
(* row written twice would keep the walk from ever returning to row 0.     *)
(***************************************************************************)
EXTENDS Lyra2Control, ScheduleFn, FiniteSets
CONSTANTS MaxFill, MaxR, Variant    \* Variant: "lyra2", or a broken schedule
VARIABLE cnt
vars == <<cvars, cnt>>

FillInit == CInit(MaxFill, 0) /\ cnt = 0
Wander(R, p) ==
    /\ cpc = "wander" /\ rows = R /\ passes = 0
    /\ row = 0 /\ prev = R - 1 /\ rowa = 0 /\ window = 0 /\ gap = 0 /\ tau = p
    /\ step = CASE Variant = "evenstep" -> (IF p = 1 THEN R \div 2 ELSE -1)
                [] OTHER -> PassStep(R, p)
    /\ cnt = 0
Init == FillInit \/ \E R \in 3..MaxR, p \in {1, 2} : Wander(R, p)

BrokenFill == \* the gap does not alternate: steps become even
    /\ cpc = "fill" /\ row < rows
    /\ LET next == (rowa + step) % window
       IN  /\ rowa' = next /\ prev' = row /\ row' = row + 1
           /\ IF next = 0 THEN step' = window /\ window' = 2 * window /\ UNCHANGED gap
              ELSE UNCHANGED <<step, window, gap>>
    /\ UNCHANGED <<cpc, rows, passes, tau>>

Next == \/ (IF Variant = "nogap" THEN BrokenFill ELSE CFillRow) /\ cnt' = cnt
        \/ cpc = "fill" /\ row = rows /\ UNCHANGED vars
        \/ CWanderRowTo(0) /\ cnt' = cnt + 1
        \/ cpc = "pass" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* filling: the row written is the next one, the rows read exist and differ
FillSound == cpc = "fill" /\ row < rows =>
    /\ prev = row - 1 /\ rowa < row /\ rowa # prev
    /\ window <= row /\ row < 2 * window
\* the j-th row revisited in this window
Closed == cpc = "fill" =>
    /\ step % 2 = 1 /\ IsPow2(window) /\ gap \in {1, -1}
    /\ row - window <= window
    /\ rowa = ((row - window) * step) % window
\* ... and they are all different
Fair == cpc = "fill" /\ row = window => Cardinality({ (j * step) % window : j \in 0..(window-1) }) = window
\* step follows the published sequence: half the window plus 1, minus 1, plus 1 ...
Step == cpc = "fill" /\ window > 2 => step = (window \div 2) - gap
\* the linear form, which ScheduleInd shows to be inductive for windows of any size
Linear == /\ cpc = "fill" /\ window >= 4 => rowa = At(row - window, window, gap)
          /\ cpc = "wander" /\ IsPow2(rows) =>
                row = IF tau = 1 THEN At(cnt, rows, 1) ELSE IF cnt = 0 THEN 0 ELSE rows - cnt
\* wandering: never more than R rows; all of them if R is a power of two
Bounded == cpc = "wander" => row \in 0..(rows-1) /\ cnt < rows
Covers == cpc = "pass" => /\ row = 0
                          /\ IsPow2(rows) => cnt = rows
=============================================================================
