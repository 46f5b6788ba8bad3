----------------------------- MODULE Groestl256 -----------------------------
(* Groestl-256 (SHA-3 final round version).  A state is 64 bytes, column   *)
(* by column: byte 8*c + r + 1 is row r of column c.                       *)
EXTENDS Words

SBox == <<
           99, 124, 119, 123, 242, 107, 111, 197,  48,   1, 103,  43, 254, 215, 171, 118,
          202, 130, 201, 125, 250,  89,  71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
          183, 253, 147,  38,  54,  63, 247, 204,  52, 165, 229, 241, 113, 216,  49,  21,
            4, 199,  35, 195,  24, 150,   5, 154,   7,  18, 128, 226, 235,  39, 178, 117,
            9, 131,  44,  26,  27, 110,  90, 160,  82,  59, 214, 179,  41, 227,  47, 132,
           83, 209,   0, 237,  32, 252, 177,  91, 106, 203, 190,  57,  74,  76,  88, 207,
          208, 239, 170, 251,  67,  77,  51, 133,  69, 249,   2, 127,  80,  60, 159, 168,
           81, 163,  64, 143, 146, 157,  56, 245, 188, 182, 218,  33,  16, 255, 243, 210,
          205,  12,  19, 236,  95, 151,  68,  23, 196, 167, 126,  61, 100,  93,  25, 115,
           96, 129,  79, 220,  34,  42, 144, 136,  70, 238, 184,  20, 222,  94,  11, 219,
          224,  50,  58,  10,  73,   6,  36,  92, 194, 211, 172,  98, 145, 149, 228, 121,
          231, 200,  55, 109, 141, 213,  78, 169, 108,  86, 244, 234, 101, 122, 174,   8,
          186, 120,  37,  46,  28, 166, 180, 198, 232, 221, 116,  31,  75, 189, 139, 138,
          112,  62, 181, 102,  72,   3, 246,  14,  97,  53,  87, 185, 134, 193,  29, 158,
          225, 248, 152,  17, 105, 217, 142, 148, 155,  30, 135, 233, 206,  85,  40, 223,
          140, 161, 137,  13, 191, 230,  66, 104,  65, 153,  45,  15, 176,  84, 187,  22 >>

Mul2 == [a \in 0..255 |-> IF a < 128 THEN 2*a ELSE ((2*a) % 256) ^^ 27]
MulTab == [f \in 2..7 |-> [a \in 0..255 |->
             CASE f = 2 -> Mul2[a]
               [] f = 3 -> Mul2[a] ^^ a
               [] f = 4 -> Mul2[Mul2[a]]
               [] f = 5 -> Mul2[Mul2[a]] ^^ a
               [] f = 6 -> Mul2[Mul2[a]] ^^ Mul2[a]
               [] f = 7 -> (Mul2[Mul2[a]] ^^ Mul2[a]) ^^ a]]
Circ == <<2, 2, 3, 4, 5, 3, 5, 7>>
ShiftP == <<0, 1, 2, 3, 4, 5, 6, 7>>
ShiftQ == <<1, 3, 5, 7, 0, 2, 4, 6>>

LOCAL Row(i) == (i - 1) % 8
LOCAL Col(i) == (i - 1) \div 8

AddConst(isP, s, r) ==
    Tab(64, LAMBDA i :
        IF isP THEN IF Row(i) = 0 THEN s[i] ^^ ((16 * Col(i)) ^^ r) ELSE s[i]
               ELSE IF Row(i) = 7 THEN s[i] ^^ (255 ^^ ((16 * Col(i)) ^^ r)) ELSE s[i] ^^ 255)

GroestlRound(isP, s, r) ==
    LET a  == AddConst(isP, s, r)
        sh == IF isP THEN ShiftP ELSE ShiftQ
        b  == Tab(64, LAMBDA i : SBox[a[8 * ((Col(i) + sh[Row(i) + 1]) % 8) + Row(i) + 1] + 1])
        M(k, x) == MulTab[Circ[(k % 8) + 1]][x]
    IN  Tab(64, LAMBDA i :
            LET o == 8 * Col(i)
                w == Row(i)
                x(k) == M(k - w + 8, b[o + k + 1])
            IN  ((x(0) ^^ x(1)) ^^ (x(2) ^^ x(3))) ^^ ((x(4) ^^ x(5)) ^^ (x(6) ^^ x(7))))

GroestlPerm(isP, s) == FoldLeft(LAMBDA x, r : GroestlRound(isP, x, r), s, <<0,1,2,3,4,5,6,7,8,9>>)
Xor64B(a, b) == Tab(64, LAMBDA i : a[i] ^^ b[i])

GroestlPad(m) ==
    LET z == (55 - Len(m)) % 64
        n == (Len(m) + 1 + z + 8) \div 64
    IN  m \o <<128>> \o Zeros(z) \o <<0, 0, 0, 0>> \o BytesBE32(Nat32(n))

GroestlIV == Zeros(62) \o <<1, 0>>

Groestl(m) ==
    LET p == GroestlPad(m)
        F(h, j) == LET b == SubSeq(p, 64*(j-1)+1, 64*j)
                   IN  Xor64B(Xor64B(GroestlPerm(TRUE, Xor64B(h, b)), GroestlPerm(FALSE, b)), h)
        h == FoldLeft(F, GroestlIV, [j \in 1..(Len(p) \div 64) |-> j])
        o == Xor64B(GroestlPerm(TRUE, h), h)
    IN  SubSeq(o, 33, 64)
=============================================================================
