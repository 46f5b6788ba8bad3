------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* Which words of the matrix a derivation touches, cell by cell (C20).     *)
(* The control machine decides the rows; here every row operation is       *)
(* spread over its columns, and the words read and written by each action  *)
(* are recorded in acc.  The matrix has 12*R*C words; the padded input is  *)
(* laid over its beginning first.  filled: cells that hold sponge output.  *)
(*   Design "lyra2"   as the library                                       *)
(*          "nocheck" takes inputs that do not fit                         *)
(*          "nomask"  does not reduce the revisited row to the rows        *)
(*          "offbyone" fills columns from C, not from C-1                  *)
(*          "ahead"   revisits the row that is being filled                *)
(***************************************************************************)
EXTENDS Lyra2Control, FiniteSets
CONSTANTS Design, MaxR, MaxC, MaxT
VARIABLES cols, blocks, phase, col, filled, acc
vars == <<cvars, cols, blocks, phase, col, filled, acc>>

Size == 12 * rows * cols
Cell(r, c) == { 12 * (r * cols + c) + j : j \in 0..11 }
None == [read |-> {}, write |-> {}, cells |-> {}, needs |-> {}]
Back(i) == IF Design = "offbyone" THEN cols - i ELSE cols - 1 - i
\* reads and writes of cells, given as <<row, column>>
Do(rd, wr) == /\ acc' = [read |-> UNION { Cell(x[1], x[2]) : x \in rd }, write |-> UNION { Cell(x[1], x[2]) : x \in wr },
                         cells |-> wr, needs |-> rd \ filled]
              /\ filled' = filled \cup wr

Init == /\ \E R \in 3..MaxR, T \in 1..MaxT : CInit(R, T)
        /\ cols \in 1..MaxC /\ blocks \in 1..((12*MaxR*MaxC) \div 8 + 1)
        /\ (Design # "nocheck") => 8 * blocks <= Size
        /\ phase = "pad" /\ col = 0 /\ filled = {} /\ acc = None

Pad == /\ phase = "pad"
       /\ acc' = [None EXCEPT !.write = 0..(8 * blocks - 1)]
       /\ phase' = "absorb" /\ col' = 0
       /\ UNCHANGED <<cvars, cols, blocks, filled>>
Absorb == /\ phase = "absorb" /\ col < blocks
          /\ acc' = [None EXCEPT !.read = (8*col)..(8*col + 7)]
          /\ col' = col + 1
          /\ UNCHANGED <<cvars, cols, blocks, phase, filled>>
Absorbed == /\ phase = "absorb" /\ col = blocks
            /\ phase' = "row0" /\ col' = 0 /\ acc' = None
            /\ UNCHANGED <<cvars, cols, blocks, filled>>
\* the columns of one row operation
Over(p, rd, wr, after) ==
    /\ phase = p /\ col < cols
    /\ Do(rd, wr)
    /\ UNCHANGED <<cvars, cols, blocks>>
    /\ IF col + 1 = cols THEN col' = 0 /\ phase' = after ELSE col' = col + 1 /\ phase' = phase
Row0 == Over("row0", {}, {<<0, Back(col)>>}, "row1")
Row1 == Over("row1", {<<0, col>>}, {<<1, Back(col)>>}, "rows")
\* between row operations the control machine moves; the row operation it stands before is then made
FillCells == LET ra == IF Design = "ahead" THEN row ELSE rowa IN
    /\ cpc = "fill" /\ row < rows
    /\ Over("rows", {<<prev, col>>, <<ra, col>>}, {<<row, Back(col)>>, <<ra, col>>}, "rows-done")
FillMove == phase = "rows-done" /\ cpc = "fill" /\ CFillRow
            /\ phase' = "rows" /\ acc' = None /\ UNCHANGED <<cols, blocks, col, filled>>
Move == /\ phase = "rows"
        /\ \/ CFilled
           \/ CStartPass
           \/ CFinish
        /\ acc' = None /\ UNCHANGED <<cols, blocks, phase, col, filled>>
\* wandering: the sponge picks the row first, then the columns follow
Pick == /\ phase = "rows" /\ cpc = "wander"
        /\ \E ra \in IF Design = "nomask" THEN 0..rows ELSE Selectable(rows) :
              rowa' = ra
        /\ phase' = "cells" /\ col' = 0 /\ acc' = None
        /\ UNCHANGED <<cpc, rows, passes, row, prev, step, window, gap, tau, cols, blocks, filled>>
WanderCells == /\ phase = "cells" /\ cpc = "wander"
               /\ Over("cells", {<<prev, col>>, <<rowa, col>>, <<row, col>>}, {<<row, col>>, <<rowa, col>>}, "cells-done")
WanderMove == phase = "cells-done" /\ CWanderRowTo(rowa)
              /\ phase' = "rows" /\ acc' = None /\ UNCHANGED <<cols, blocks, col, filled>>
Wrap == /\ phase = "rows" /\ cpc = "done"
        /\ Do({<<rowa, 0>>}, {}) /\ phase' = "end" /\ UNCHANGED <<cvars, cols, blocks, col>>
Next == Pad \/ Absorb \/ Absorbed \/ Row0 \/ Row1 \/ FillCells \/ FillMove \/ Move \/ Pick \/ WanderCells \/ WanderMove \/ Wrap
        \/ (phase = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

InBounds == acc.read \cup acc.write \subseteq 0..(Size - 1)
\* nothing is read that was not written: cells by the sponge, input words by the padding
ReadAfterWrite == acc.needs = {} /\ (phase = "absorb" => acc.read \subseteq 0..(8 * blocks - 1))
RowsFilled == cpc = "wander" \/ phase = "end" => Cardinality(filled) = rows * cols
=============================================================================
