----------------------------- MODULE AccessProof -----------------------------
(***************************************************************************)
(* C20 for matrices of ANY size: every word that a derivation touches lies *)
(* in the matrix, and every cell is written before it is read.  Which rows *)
(* are read is left open as far as the schedule leaves it open: rows that  *)
(* exist (ScheduleInd shows that the schedule stays there for any number   *)
(* of rows, MCControl and Access check the schedule and the words together *)
(* for small ones).  Proved with TLAPS.                                    *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS R, C, Blocks
ASSUME Sizes == R \in Nat /\ R >= 3 /\ C \in Nat /\ C >= 1
ASSUME InputFits == Blocks \in Nat /\ 8 * Blocks <= 12 * (R * C)

Word(r, c, j) == 12 * (r * C + c) + j
Size == 12 * (R * C)

VARIABLES phase,      \* "absorb", "fill", "wander", "end"
          row, col,   \* what is done next
          prev, ra,   \* rows read
          filled,     \* cells that hold sponge output
          reads, writes,  \* cells touched by the last step
          input       \* words of the input read by the last step
vars == <<phase, row, col, prev, ra, filled, reads, writes, input>>

Rows == 0..(R - 1)
Cols == 0..(C - 1)
Cells == Rows \X Cols

Init == /\ phase = "absorb" /\ row = 0 /\ col = 0 /\ prev = 0 /\ ra = 0
        /\ filled = {} /\ reads = {} /\ writes = {} /\ input = {}
Absorb == /\ phase = "absorb" /\ col < Blocks
          /\ input' = (8 * col)..(8 * col + 7) /\ col' = col + 1
          /\ reads' = {} /\ writes' = {} /\ UNCHANGED <<phase, row, prev, ra, filled>>
Absorbed == /\ phase = "absorb" /\ col = Blocks /\ phase' = "fill" /\ col' = 0 /\ row' = 0
            /\ input' = {} /\ reads' = {} /\ writes' = {} /\ UNCHANGED <<prev, ra, filled>>
\* the first row is squeezed, the second reads the first, the others read the row before and one earlier row
FillCell == /\ phase = "fill" /\ row < R /\ col < C
            /\ reads' = (IF row = 0 THEN {} ELSE IF row = 1 THEN {<<0, col>>} ELSE {<<row - 1, col>>, <<ra, col>>})
            /\ writes' = {<<row, C - 1 - col>>} \cup (IF row < 2 THEN {} ELSE {<<ra, col>>})
            /\ filled' = filled \cup writes' /\ col' = col + 1 /\ input' = {}
            /\ UNCHANGED <<phase, row, prev, ra>>
FillRow == /\ phase = "fill" /\ row < R /\ col = C
           /\ row' = row + 1 /\ col' = 0 /\ ra' \in 0..row
           /\ reads' = {} /\ writes' = {} /\ input' = {} /\ UNCHANGED <<phase, prev, filled>>
Filled == /\ phase = "fill" /\ row = R /\ phase' = "wander" /\ col' = 0
          /\ row' \in Rows /\ prev' \in Rows /\ ra' \in Rows
          /\ reads' = {} /\ writes' = {} /\ input' = {} /\ UNCHANGED filled
WanderCell == /\ phase = "wander" /\ col < C
              /\ reads' = {<<prev, col>>, <<ra, col>>, <<row, col>>} /\ writes' = {<<row, col>>, <<ra, col>>}
              /\ filled' = filled \cup writes' /\ col' = col + 1 /\ input' = {}
              /\ UNCHANGED <<phase, row, prev, ra>>
WanderRow == /\ phase = "wander" /\ col = C /\ col' = 0
             /\ row' \in Rows /\ prev' \in Rows /\ ra' \in Rows
             /\ reads' = {} /\ writes' = {} /\ input' = {} /\ UNCHANGED <<phase, filled>>
Wrap == /\ phase = "wander" /\ col = C /\ phase' = "end"
        /\ reads' = {<<ra, 0>>} /\ writes' = {} /\ input' = {} /\ UNCHANGED <<row, col, prev, ra, filled>>
Next == Absorb \/ Absorbed \/ FillCell \/ FillRow \/ Filled \/ WanderCell \/ WanderRow \/ Wrap
Spec == Init /\ [][Next]_vars

\* ---- what C20 says
InBounds == /\ \A x \in reads \cup writes, j \in 0..11 : Word(x[1], x[2], j) \in 0..(Size - 1)
            /\ \A i \in input : i \in 0..(Size - 1)
ReadAfterWrite == reads \subseteq filled

\* ---- the invariant
Types == /\ phase \in {"absorb", "fill", "wander", "end"}
         /\ col \in Nat /\ row \in Nat
         /\ reads \subseteq Cells /\ writes \subseteq Cells
         /\ \A i \in input : i \in 0..(Size - 1)
InvAbsorb == phase = "absorb" => col <= Blocks
InvFill == phase = "fill" =>
             /\ row <= R /\ col <= C /\ (row = R => col = 0)
             /\ (row >= 2 => ra \in 0..(row - 1))
             /\ \A x \in Cells : x[1] < row => x \in filled
             /\ \A x \in Cells : x[1] = row /\ x[2] > C - 1 - col => x \in filled
InvWander == phase \in {"wander", "end"} => /\ Cells \subseteq filled /\ col <= C
                                  /\ row \in Rows /\ prev \in Rows /\ ra \in Rows
Inv == Types /\ InvAbsorb /\ InvFill /\ InvWander /\ ReadAfterWrite

LEMMA CellIn == \A x \in Cells, j \in 0..11 : Word(x[1], x[2], j) \in 0..(Size - 1)
<1> TAKE x \in Cells, j \in 0..11
<1> DEFINE r == x[1] c == x[2]
<1>1. r \in Nat /\ r <= R - 1 /\ c \in Nat /\ c <= C - 1 /\ j \in Nat /\ j <= 11
  BY Sizes DEF Cells, Rows, Cols
<1>2. \A a, b, d \in Nat : a <= b => a * d <= b * d
  OBVIOUS
<1>3. R - 1 \in Nat
  BY Sizes
<1>4. r * C <= (R - 1) * C
  BY <1>1, <1>2, <1>3, Sizes
<1>5. (R - 1) * C = R * C - C
  BY Sizes
<1>6. r * C \in Nat /\ R * C \in Nat
  BY <1>1, Sizes
<1>7. r * C + c <= R * C - 1
  BY <1>1, <1>4, <1>5, <1>6, Sizes
<1> HIDE DEF r, c
<1>8. 12 * (r * C + c) + j \in 0..(12 * (R * C) - 1)
  BY <1>1, <1>6, <1>7
<1> QED BY <1>8 DEF Word, Size, r, c

THEOREM Safe == Inv => InBounds /\ ReadAfterWrite
  BY CellIn DEF Inv, Types, InBounds

THEOREM InvInit == Init => Inv
  BY Sizes, InputFits DEF Init, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite

THEOREM InvNext == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Sizes DEF Rows, Cols
<1>1. CASE Absorb
  <2>1. \A i \in (8 * col)..(8 * col + 7) : i \in 0..(Size - 1)
    <3>1. col \in Nat /\ col < Blocks /\ Blocks \in Nat /\ R * C \in Nat /\ 8 * Blocks <= 12 * (R * C)
      BY <1>1, InputFits DEF Absorb, Inv, Types
    <3> QED BY <3>1 DEF Size
  <2>2. col' \in Nat /\ col' <= Blocks
    BY <1>1, InputFits DEF Absorb, Inv, Types
  <2> QED BY <1>1, <2>1, <2>2 DEF Absorb, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite
<1>2. CASE Absorbed
  BY <1>2 DEF Absorbed, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite, Cells
<1>3. CASE FillCell
  <2>1. row \in Rows /\ col \in Cols /\ C - 1 - col \in Cols
    BY <1>3 DEF FillCell, Inv, Types
  <2>2. row >= 2 => ra \in Rows /\ ra < row
    BY <1>3, <2>1 DEF FillCell, Inv, InvFill
  <2>3. reads' \subseteq Cells /\ writes' \subseteq Cells
    BY <1>3, <2>1, <2>2 DEF FillCell, Cells
  <2>4. reads' \subseteq filled
    <3>1. CASE row = 0
      BY <1>3, <3>1 DEF FillCell
    <3>2. CASE row = 1
      <4>1. <<0, col>> \in Cells
        BY <2>1 DEF Cells
      <4> QED BY <1>3, <3>2, <4>1 DEF FillCell, Inv, InvFill
    <3>3. CASE row >= 2
      <4>1. <<row - 1, col>> \in Cells /\ <<ra, col>> \in Cells
        BY <2>1, <2>2, <3>3 DEF Cells
      <4>2. <<row - 1, col>> \in filled /\ <<ra, col>> \in filled
        BY <1>3, <2>1, <2>2, <3>3, <4>1 DEF FillCell, Inv, InvFill
      <4> QED BY <1>3, <3>3, <4>2 DEF FillCell
    <3> QED BY <2>1, <3>1, <3>2, <3>3
  <2>5. \A x \in Cells : x[1] = row /\ x[2] > C - 1 - (col + 1) => x \in filled'
    <3> TAKE x \in Cells
    <3> HAVE x[1] = row /\ x[2] > C - 1 - (col + 1)
    <3>0. x = <<x[1], x[2]>> /\ x[2] \in Cols
      BY DEF Cells
    <3>1. CASE x[2] = C - 1 - col
      BY <1>3, <3>0, <3>1 DEF FillCell
    <3>2. CASE x[2] > C - 1 - col
      BY <1>3, <3>2 DEF FillCell, Inv, InvFill
    <3> QED BY <2>1, <3>0, <3>1, <3>2
  <2>6. \A x \in Cells : x[1] < row => x \in filled'
    BY <1>3 DEF FillCell, Inv, InvFill
  <2> QED BY <1>3, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF FillCell, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite
<1>4. CASE FillRow
  <2>1. \A x \in Cells : x[1] < row + 1 => x \in filled
    <3> TAKE x \in Cells
    <3> HAVE x[1] < row + 1
    <3>0. x[1] \in Rows /\ x[2] \in Cols
      BY DEF Cells
    <3>1. CASE x[1] < row
      BY <1>4, <3>1 DEF FillRow, Inv, InvFill
    <3>2. CASE x[1] = row
      BY <1>4, <3>0, <3>2 DEF FillRow, Inv, InvFill
    <3> QED BY <1>4, <3>0, <3>1, <3>2 DEF FillRow, Inv, Types
  <2>2. \A x \in Cells : ~(x[2] > C - 1 - 0)
    BY DEF Cells
  <2> QED BY <1>4, <2>1, <2>2 DEF FillRow, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite
<1>5. CASE Filled
  <2>1. Cells \subseteq filled
    <3> SUFFICES ASSUME NEW x \in Cells PROVE x \in filled
      OBVIOUS
    <3>1. x[1] \in Rows
      BY DEF Cells
    <3> QED BY <1>5, <3>1 DEF Filled, Inv, InvFill
  <2> QED BY <1>5, <2>1 DEF Filled, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite
<1>6. CASE WanderCell
  <2>1. row \in Rows /\ prev \in Rows /\ ra \in Rows /\ col \in Cols
    BY <1>6 DEF WanderCell, Inv, InvWander, Types
  <2>2. reads' \subseteq Cells /\ writes' \subseteq Cells
    BY <1>6, <2>1 DEF WanderCell, Cells
  <2> QED BY <1>6, <2>1, <2>2 DEF WanderCell, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite
<1>7. CASE WanderRow
  BY <1>7 DEF WanderRow, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite
<1>8. CASE Wrap
  <2>1. <<ra, 0>> \in Cells
    BY <1>8 DEF Wrap, Inv, InvWander, Cells
  <2> QED BY <1>8, <2>1 DEF Wrap, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite
<1>9. CASE UNCHANGED vars
  BY <1>9 DEF vars, Inv, Types, InvAbsorb, InvFill, InvWander, ReadAfterWrite
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9 DEF Next

THEOREM Spec => [](InBounds /\ ReadAfterWrite)
<1>1. Spec => []Inv
  BY InvInit, InvNext, PTL DEF Spec
<1> QED BY <1>1, Safe, PTL
=============================================================================
