---------------------------- MODULE Lyra2Control ----------------------------
(***************************************************************************)
(* The control skeleton of Lyra2: which rows are filled, read and          *)
(* overwritten, in which order.  The sponge is abstracted: the row         *)
(* revisited while wandering is any row the mask R-1 can select.           *)
(* One action per row operation, as in the concrete machine (LyraMachine), *)
(* which refines this one.                                                 *)
(***************************************************************************)
EXTENDS Integers, Bitwise

VARIABLES
    cpc,       \* "fill", "pass" (between passes), "wander", "done"
    rows,      \* R
    passes,    \* T
    row,       \* row to be written next
    prev,      \* last row written
    rowa,      \* row revisited (row*): next one while filling, last one while wandering
    step, window, gap,
    tau        \* current pass
cvars == <<cpc, rows, passes, row, prev, rowa, step, window, gap, tau>>

IsPow2(n) == \E i \in 0..20 : n = 2^i
\* Two's-complement conjunction with a mask, for x >= -1
MaskRow(x, R) == IF x < 0 THEN R - 1 ELSE x & (R - 1)
\* Rows that "some word & (R-1)" can denote
Selectable(R) == { x \in 0..(R-1) : (x & (R-1)) = x }

PassStep(R, t) == IF t % 2 = 1 THEN (R \div 2) - 1 ELSE -1

\* Filling starts when rows 0 and 1 exist.
CInit(R, T) ==
    /\ cpc = "fill" /\ rows = R /\ passes = T
    /\ row = 2 /\ prev = 1 /\ rowa = 0
    /\ step = 1 /\ window = 2 /\ gap = 1 /\ tau = 0

CFillRow ==
    /\ cpc = "fill" /\ row < rows
    /\ LET next == (rowa + step) % window
       IN  /\ rowa' = next
           /\ prev' = row
           /\ row' = row + 1
           /\ IF next = 0
              THEN step' = window + gap /\ window' = 2 * window /\ gap' = -gap
              ELSE UNCHANGED <<step, window, gap>>
    /\ UNCHANGED <<cpc, rows, passes, tau>>

CFilled ==
    /\ cpc = "fill" /\ row = rows
    /\ cpc' = "pass" /\ row' = 0
    /\ UNCHANGED <<rows, passes, prev, rowa, step, window, gap, tau>>

CStartPass ==
    /\ cpc = "pass" /\ tau < passes
    /\ tau' = tau + 1
    /\ step' = PassStep(rows, tau')
    /\ cpc' = "wander"
    /\ UNCHANGED <<rows, passes, row, prev, rowa, window, gap>>

CWanderRowTo(ra) ==
    /\ cpc = "wander"
    /\ rowa' = ra
    /\ prev' = row
    /\ row' = MaskRow(row + step, rows)
    /\ cpc' = IF row' = 0 THEN "pass" ELSE "wander"
    /\ UNCHANGED <<rows, passes, step, window, gap, tau>>
CWanderRow == \E ra \in Selectable(rows) : CWanderRowTo(ra)

CFinish ==
    /\ cpc = "pass" /\ tau = passes
    /\ cpc' = "done"
    /\ UNCHANGED <<rows, passes, row, prev, rowa, step, window, gap, tau>>

CNext == CFillRow \/ CFilled \/ CStartPass \/ CWanderRow \/ CFinish
=============================================================================
