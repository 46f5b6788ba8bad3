------------------------------ MODULE Machines ------------------------------
(***************************************************************************)
(* The same call on machines of different kinds (C19).  A machine has a    *)
(* byte order and a width of its index type.  A scaled-down derivation     *)
(* (words of four one-bit "bytes", indices of four or two of them) reads   *)
(* its input into words, mixes, picks a row by a word of the state, binds  *)
(* the requested length, and writes the key out, one action each.  What a  *)
(* design does at the places where the machine shows through:              *)
(*   portable   as the library: explicit little-endian conversions, and    *)
(*              words cut to an index only after the row is determined     *)
(*   maskfirst  cuts to the index first, then masks (harmless when the     *)
(*              number of rows is a power of two)                          *)
(*   cutfirst   cuts to the index first, then reduces modulo the rows      *)
(*   nativein / nativeout   conversion in the machine's byte order         *)
(*   cutlength  keeps the requested length as an index                     *)
(* Portable: the key is the same on every machine.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Design, MaxRows
VARIABLES order, width, input, rows, klen, pc, word, row, key
vars == <<order, width, input, rows, klen, pc, word, row, key>>

Byte == 0..1
Word == 0..15
PowerOfTwo == {1, 2, 4, 8}
Le(b) == b[1] + 2*b[2] + 4*b[3] + 8*b[4]
Be(b) == b[4] + 2*b[3] + 4*b[2] + 8*b[1]
LeBytes(w) == [i \in 1..4 |-> (w \div (2^(i-1))) % 2]
BeBytes(w) == [i \in 1..4 |-> (w \div (2^(4-i))) % 2]
Cut(w) == w % (2^width)                       \* conversion to an index
Mix(w, x) == (w * 7 + x * 3 + 5) % 16

\* the machine-independent definition
RefWord(b, k) == Mix(Le(b), k)
RefRow(b, k, r) == RefWord(b, k) % r
RefKey(b, k, r) == LeBytes(Mix(RefWord(b, k), RefRow(b, k, r)))

Init == /\ order \in {"little", "big"} /\ width \in {2, 4}
        /\ input \in [1..4 -> Byte] /\ rows \in 3..MaxRows /\ klen \in Word
        /\ pc = "read" /\ word = 0 /\ row = 0 /\ key = <<>>
Read == /\ pc = "read"
        /\ word' = IF Design = "nativein" /\ order = "big" THEN Be(input) ELSE Le(input)
        /\ pc' = "bind" /\ UNCHANGED <<row, key>>
Bind == /\ pc = "bind"
        /\ word' = Mix(word, IF Design = "cutlength" THEN Cut(klen) ELSE klen)
        /\ pc' = "select" /\ UNCHANGED <<row, key>>
Select == /\ pc = "select"
          /\ row' = CASE Design = "cutfirst" -> Cut(word) % rows
                      [] Design = "maskfirst" /\ rows \in PowerOfTwo -> Cut(word) % rows
                      [] OTHER -> Cut(word % rows)
          /\ pc' = "write" /\ UNCHANGED <<word, key>>
Write == /\ pc = "write"
         /\ LET w == Mix(word, row)
            IN key' = IF Design = "nativeout" /\ order = "big" THEN BeBytes(w) ELSE LeBytes(w)
         /\ pc' = "done" /\ UNCHANGED <<word, row>>
Next == /\ UNCHANGED <<order, width, input, rows, klen>>
        /\ Read \/ Bind \/ Select \/ Write \/ (pc = "done" /\ UNCHANGED <<pc, word, row, key>>)
Spec == Init /\ [][Next]_vars

Addressable == rows <= 2^width                 \* a matrix this machine can hold
Portable == pc = "done" /\ Addressable => key = RefKey(input, klen, rows)
InMatrix == pc \in {"write", "done"} /\ Addressable => row \in 0..(rows-1)
=============================================================================
