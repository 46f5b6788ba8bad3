------------------------------ MODULE MCControl ------------------------------
(***************************************************************************)
(* Exhaustive check of the control skeleton for every R in MinR..MaxR and  *)
(* every T in 1..MaxT, with every pseudo-random choice of revisited rows.  *)
(* filled, seen, wseen are history variables.                              *)
(***************************************************************************)
EXTENDS Lyra2Control, FiniteSets
CONSTANTS MinR, MaxR, MaxT
VARIABLES filled,   \* rows filled so far
          seen,     \* rows written in the current pass
          wseen     \* rows revisited in the current window
vars == <<cvars, filled, seen, wseen>>

Init == /\ \E R \in MinR..MaxR, T \in 1..MaxT : CInit(R, T)
        /\ filled = {0, 1} /\ seen = {} /\ wseen = {}
Next == \/ CFillRow /\ filled' = filled \cup {row} /\ seen' = seen
                    /\ wseen' = IF rowa' = 0 THEN {} ELSE wseen \cup {rowa}
        \/ CFilled /\ UNCHANGED <<filled, seen, wseen>>
        \/ CStartPass /\ seen' = {} /\ UNCHANGED <<filled, wseen>>
        \/ CWanderRow /\ seen' = seen \cup {row} /\ UNCHANGED <<filled, wseen>>
        \/ CFinish /\ UNCHANGED <<filled, seen, wseen>>
        \/ cpc = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* The revisited row of the last wandering step influences nothing but the
\* data, so it need not distinguish states.
View == <<cpc, rows, passes, row, prev, step, window, gap, tau, filled, seen, wseen,
          IF cpc \in {"pass", "wander"} THEN 0 ELSE rowa>>

TypeOK == /\ cpc \in {"fill", "pass", "wander", "done"}
          /\ rows \in MinR..MaxR /\ row \in 0..rows
          /\ prev \in 0..(rows-1) /\ rowa \in 0..(rows-1) \cup 0..(window-1)
          /\ gap \in {1, -1} /\ tau \in 0..passes

\* C13: a row is only read after it was filled, and is filled exactly once, in order
FillSound == cpc = "fill" /\ row < rows =>
    /\ filled = 0..(row-1)
    /\ prev = row - 1
    /\ rowa \in filled /\ rowa # prev /\ rowa # row
AllFilled == cpc \in {"pass", "wander", "done"} => filled = 0..(rows-1)
\* C13: within a window no row is revisited twice, and all are before it doubles
WindowFair == cpc = "fill" =>
    /\ IsPow2(window)
    /\ rowa \notin wseen
    /\ wseen \subseteq 0..(window-1)
    /\ Cardinality(wseen) = row - window
    /\ row <= 2 * window
\* C13: a pass never writes a row twice, and covers all rows if R is a power of two
PassSound == cpc = "wander" => row \notin seen
PassCovers == cpc \in {"pass", "done"} /\ tau > 0 /\ IsPow2(rows) => seen = 0..(rows-1)
\* C04: indices never leave the matrix
InMatrix == cpc = "wander" => row \in 0..(rows-1) /\ prev \in 0..(rows-1) /\ rowa \in 0..(rows-1)
\* C04: termination
Terminates == <>(cpc = "done")
=============================================================================
