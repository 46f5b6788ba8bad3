---------------------------- MODULE EncodingProof ----------------------------
(***************************************************************************)
(* C02 for inputs of ANY length: the padded input determines every whole   *)
(* word of password and salt, both lengths and the four other parameters.  *)
(* Proved with TLAPS; Encoding checks Lyra2Ops!Encode itself on finite     *)
(* spaces.  Word j of the encoding is At(a, j); words are opaque, only     *)
(* those of the padding have names.                                        *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS Word, Num(_),          \* words; the word of a number (injective)
          Zero, Mark, Last, Both \* 0, 0x80, 1 << 56, Mark xor Last
ASSUME Distinct == Mark # Zero /\ Mark # Last /\ Both # Zero /\ Both # Last
ASSUME NumInjective == \A x, y \in Nat : Num(x) = Num(y) => x = y

\* a tuple of arguments: lengths in bytes, whole words of both inputs, other parameters
Args == [pl : Nat, sl : Nat, pwd : [Nat -> Word], salt : [Nat -> Word], k : Nat, t : Nat, r : Nat, c : Nat]
PW(a) == a.pl \div 8
SW(a) == a.sl \div 8
Blocks(a) == (a.pl + a.sl + 48) \div 64 + 1
Size(a) == 8 * Blocks(a)
Pos(a) == PW(a) + SW(a) + 6         \* where the padding begins
At(a, j) == CASE j < PW(a) -> a.pwd[j]
              [] j >= PW(a) /\ j < PW(a) + SW(a) -> a.salt[j - PW(a)]
              [] j = PW(a) + SW(a) -> Num(a.k)
              [] j = PW(a) + SW(a) + 1 -> Num(a.pl)
              [] j = PW(a) + SW(a) + 2 -> Num(a.sl)
              [] j = PW(a) + SW(a) + 3 -> Num(a.t)
              [] j = PW(a) + SW(a) + 4 -> Num(a.r)
              [] j = PW(a) + SW(a) + 5 -> Num(a.c)
              [] j = Pos(a) /\ j # Size(a) - 1 -> Mark
              [] j = Pos(a) /\ j = Size(a) - 1 -> Both
              [] j > Pos(a) /\ j # Size(a) - 1 -> Zero
              [] j > Pos(a) /\ j = Size(a) - 1 -> Last
SameEncoding(a, b) == Size(a) = Size(b) /\ \A j \in 0..(Size(a) - 1) : At(a, j) = At(b, j)

LEMMA Fits == \A a \in Args : PW(a) \in Nat /\ SW(a) \in Nat /\ Size(a) \in Nat /\ Pos(a) \in Nat /\ Pos(a) < Size(a)
<1> TAKE a \in Args
<1>1. a.pl \in Nat /\ a.sl \in Nat
  BY DEF Args
<1> DEFINE n == a.pl + a.sl + 48
<1>2. \A x \in Nat : x \div 8 \in Nat /\ 8 * (x \div 8) <= x
  OBVIOUS
<1>3. \A x \in Nat : x \div 64 \in Nat /\ x < 64 * (x \div 64 + 1)
  OBVIOUS
<1>4. PW(a) \in Nat /\ SW(a) \in Nat /\ 8 * PW(a) <= a.pl /\ 8 * SW(a) <= a.sl
  BY <1>1, <1>2 DEF PW, SW
<1>5. n \in Nat /\ n \div 64 \in Nat /\ n < 64 * (n \div 64 + 1)
  BY <1>1, <1>3
<1>6. Blocks(a) = n \div 64 + 1
  BY DEF Blocks
<1>7. 8 * Pos(a) < 8 * Size(a)
  BY <1>1, <1>4, <1>5, <1>6 DEF Pos, Size
<1> QED BY <1>4, <1>5, <1>6, <1>7 DEF Pos, Size

\* the padding begins at the same word: behind it there are only zeros and the last word
LEMMA SamePos == \A a, b \in Args : SameEncoding(a, b) => ~(Pos(a) < Pos(b))
<1> SUFFICES ASSUME NEW a \in Args, NEW b \in Args, SameEncoding(a, b), Pos(a) < Pos(b) PROVE FALSE
  OBVIOUS
<1>1. /\ PW(a) \in Nat /\ SW(a) \in Nat /\ PW(b) \in Nat /\ SW(b) \in Nat
      /\ Pos(b) < Size(b) /\ Size(a) = Size(b) /\ Size(b) \in Nat /\ Pos(b) \in Nat /\ Pos(a) \in Nat
  BY Fits DEF SameEncoding
<1>2. At(a, Pos(b)) = At(b, Pos(b))
  BY <1>1 DEF SameEncoding
<1>3. At(b, Pos(b)) \in {Mark, Both} /\ (Pos(b) # Size(b) - 1 => At(b, Pos(b)) = Mark)
  BY <1>1 DEF At, Pos
<1>4. (Pos(b) # Size(b) - 1 => At(a, Pos(b)) = Zero) /\ (Pos(b) = Size(b) - 1 => At(a, Pos(b)) = Last)
  BY <1>1 DEF At, Pos
<1> QED BY <1>2, <1>3, <1>4, Distinct

THEOREM Injective == \A a, b \in Args : SameEncoding(a, b) =>
    /\ a.k = b.k /\ a.pl = b.pl /\ a.sl = b.sl /\ a.t = b.t /\ a.r = b.r /\ a.c = b.c
    /\ \A j \in Nat : j < PW(a) => a.pwd[j] = b.pwd[j]
    /\ \A j \in Nat : j < SW(a) => a.salt[j] = b.salt[j]
<1> SUFFICES ASSUME NEW a \in Args, NEW b \in Args, SameEncoding(a, b)
    PROVE /\ a.k = b.k /\ a.pl = b.pl /\ a.sl = b.sl /\ a.t = b.t /\ a.r = b.r /\ a.c = b.c
          /\ \A j \in Nat : j < PW(a) => a.pwd[j] = b.pwd[j]
          /\ \A j \in Nat : j < SW(a) => a.salt[j] = b.salt[j]
  OBVIOUS
<1>0. SameEncoding(b, a)
  BY DEF SameEncoding
<1>1. /\ PW(a) \in Nat /\ SW(a) \in Nat /\ PW(b) \in Nat /\ SW(b) \in Nat /\ Pos(a) \in Nat /\ Pos(b) \in Nat
      /\ Pos(a) < Size(a) /\ Size(a) = Size(b) /\ Size(a) \in Nat
  BY Fits DEF SameEncoding
<1>2. Pos(a) = Pos(b)
  BY <1>0, <1>1, SamePos
<1>3. PW(a) + SW(a) = PW(b) + SW(b)
  BY <1>1, <1>2 DEF Pos
<1>4. \A i \in 0..5 : At(a, PW(a) + SW(a) + i) = At(b, PW(b) + SW(b) + i)
  <2> TAKE i \in 0..5
  <2>1. PW(a) + SW(a) + i \in 0..(Size(a) - 1)
    BY <1>1 DEF Pos
  <2> QED BY <2>1, <1>3 DEF SameEncoding
<1>5. \A x \in Args : PW(x) \in Nat /\ SW(x) \in Nat =>
        /\ At(x, PW(x) + SW(x) + 0) = Num(x.k) /\ At(x, PW(x) + SW(x) + 1) = Num(x.pl)
        /\ At(x, PW(x) + SW(x) + 2) = Num(x.sl) /\ At(x, PW(x) + SW(x) + 3) = Num(x.t)
        /\ At(x, PW(x) + SW(x) + 4) = Num(x.r) /\ At(x, PW(x) + SW(x) + 5) = Num(x.c)
  BY DEF At
<1>6. Num(a.k) = Num(b.k) /\ Num(a.pl) = Num(b.pl) /\ Num(a.sl) = Num(b.sl) /\ Num(a.t) = Num(b.t) /\ Num(a.r) = Num(b.r) /\ Num(a.c) = Num(b.c)
  BY <1>1, <1>4, <1>5
<1>7. \A x \in Args : x.k \in Nat /\ x.pl \in Nat /\ x.sl \in Nat /\ x.t \in Nat /\ x.r \in Nat /\ x.c \in Nat
  BY DEF Args
<1>8. a.k = b.k /\ a.pl = b.pl /\ a.sl = b.sl /\ a.t = b.t /\ a.r = b.r /\ a.c = b.c
  BY <1>6, <1>7, NumInjective
<1>9. PW(a) = PW(b) /\ SW(a) = SW(b)
  BY <1>8 DEF PW, SW
<1>10. ASSUME NEW j \in Nat, j < PW(a) PROVE a.pwd[j] = b.pwd[j]
  <2>1. j \in 0..(Size(a) - 1)
    BY <1>1, <1>10 DEF Pos
  <2>2. At(a, j) = a.pwd[j] /\ At(b, j) = b.pwd[j]
    BY <1>1, <1>9, <1>10 DEF At
  <2> QED BY <2>1, <2>2 DEF SameEncoding
<1>11. ASSUME NEW j \in Nat, j < SW(a) PROVE a.salt[j] = b.salt[j]
  <2> DEFINE i == PW(a) + j
  <2>1. i \in 0..(Size(a) - 1)
    BY <1>1, <1>11 DEF Pos
  <2>2. i - PW(a) = j /\ i - PW(b) = j /\ ~(i < PW(a)) /\ ~(i < PW(b)) /\ i >= PW(a) /\ i < PW(a) + SW(a)
    BY <1>1, <1>9, <1>11
  <2>3. At(a, i) = a.salt[j] /\ At(b, i) = b.salt[j]
    BY <1>1, <1>9, <2>2 DEF At
  <2> QED BY <2>1, <2>3 DEF SameEncoding
<1> QED BY <1>8, <1>10, <1>11
=============================================================================
