------------------------------- MODULE MCCoin -------------------------------
(***************************************************************************)
(* C12: the first stage of every coin digest sees the whole input.  The    *)
(* machine walks over input lengths; at each length it takes every input   *)
(* with at most one byte different from zero (values 1 and 128) and checks *)
(* that the padded messages of all inputs so far are different and consist *)
(* of whole blocks.  (All later stages take 32 bytes.)                     *)
(***************************************************************************)
EXTENDS Blake256, FiniteSets
CONSTANT MaxLen
VARIABLES len, pads, count
vars == <<len, pads, count>>
Inputs(n) == {Zeros(n)} \cup { [Zeros(n) EXCEPT ![i] = b] : i \in 1..n, b \in {1, 128} }
Init == len = 0 /\ pads = {BlakePad(<<>>)} /\ count = 1
Grow == /\ len < MaxLen
        /\ len' = len + 1
        /\ LET S == Inputs(len + 1)
           IN  /\ pads' = pads \cup { BlakePad(x) : x \in S }
               /\ count' = count + Cardinality(S)
Next == Grow \/ (len = MaxLen /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
TView == len
Injective == Cardinality(pads) = count
WholeBlocks == \A p \in pads : Len(p) % 64 = 0 /\ Len(p) > 0
=============================================================================
