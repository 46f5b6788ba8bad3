----------------------------- MODULE ScheduleFn -----------------------------
(* The linear form of the row schedule (see ScheduleInd; MCSchedule checks   *)
(* with TLC that the schedule of Lyra2Control has it).                       *)
EXTENDS Integers
\* @type: (Int, Int) => Int;
Wrap(x, w) == IF x >= w THEN x - w ELSE IF x < 0 THEN x + w ELSE x
\* the j-th row revisited in a window of w rows (0 <= j <= w), w a multiple of 4
\* @type: (Int, Int, Int) => Int;
At(j, w, g) == LET base == IF g = 1 THEN (IF j = 0 THEN 0 ELSE w - j) ELSE j
               IN  IF j % 2 = 1 THEN Wrap(base + w \div 2, w) ELSE Wrap(base, w)
=============================================================================
