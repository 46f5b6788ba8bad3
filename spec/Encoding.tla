------------------------------ MODULE Encoding ------------------------------
(***************************************************************************)
(* C02: the padded input of Lyra2 determines password, salt and all six    *)
(* parameters.  A walk over the parameter space: the machine visits every  *)
(* parameter tuple of a finite space once and remembers the encodings; two *)
(* tuples with the same encoding would leave the two counts different.     *)
(* The words of the space include those that look like parameters and      *)
(* like padding.                                                           *)
(***************************************************************************)
EXTENDS Lyra2Ops, FiniteSets
CONSTANTS MaxWords, Vals, Fields     \* Fields = "all", or the negative variants
VARIABLES todo, encs, count
vars == <<todo, encs, count>>

\* 8-byte words: zero, one, 0x80 (start of padding), 0x01000000_00000000 (end of padding)
Letter == << <<0,0,0,0,0,0,0,0>>, <<1,0,0,0,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,1>> >>
Texts == UNION { [1..n -> 1..4] : n \in 0..MaxWords }
Text(s) == Concat([i \in 1..Len(s) |-> Letter[s[i]]])

Enc(p) ==
    IF Fields = "all" THEN Encode(p)
    ELSE IF Fields = "nolengths"        \* lengths left out: must NOT be injective
    THEN WholeWords(p.pwd) \o WholeWords(p.salt) \o <<Nat64(p.k), Nat64(p.t), Nat64(p.r), Nat64(p.c)>>
    ELSE \* "nopad": parameters first and no length of the salt
         <<Nat64(p.k), Nat64(Len(p.pwd) + Len(p.salt))>> \o WholeWords(p.pwd) \o WholeWords(p.salt)
Space == { [mod |-> FALSE, k |-> k, pwd |-> Text(a), salt |-> Text(b), t |-> t, r |-> r, c |-> c] :
             k \in Vals, a \in Texts, b \in Texts, t \in Vals, r \in Vals, c \in Vals }

\* one step per password: the tuples with this password
Init == todo = Texts /\ encs = {} /\ count = 0
Step == \E a \in {CHOOSE x \in todo : TRUE} :
    LET S == { [mod |-> FALSE, k |-> k, pwd |-> Text(a), salt |-> Text(b), t |-> t, r |-> r, c |-> c] :
                 k \in Vals, b \in Texts, t \in Vals, r \in Vals, c \in Vals }
    IN  /\ todo' = todo \ {a}
        /\ encs' = encs \cup { Enc(p) : p \in S }
        /\ count' = count + Cardinality(S)
Next == (todo # {} /\ Step) \/ (todo = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
TView == count
Injective == Cardinality(encs) = count
\* whole number of 64-byte blocks, and never an empty one
Blocks == \A e \in encs : Len(e) % 8 = 0 /\ Len(e) > 0
=============================================================================
