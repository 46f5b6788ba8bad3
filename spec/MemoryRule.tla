----------------------------- MODULE MemoryRule -----------------------------
(* The bounds of C17, in bytes or in any other unit.                       *)
EXTENDS Integers
CONSTANTS Factor, Base
\* peak: in use during a call above what was in use before it; need: matrix + inputs + key
PeakAllowed(peak, need) == peak <= Factor * need + Base
\* rest: in use between calls above the start; high: the largest need so far
RestAllowed(rest, high) == rest <= Factor * high + Base
=============================================================================
