------------------------------ MODULE Bmw256 ------------------------------
(* Blue Midnight Wish, 256 bit, SHA-3 round 2 (tweaked) version.           *)
EXTENDS Words

BmwIV    == [i \in 1..16 |-> LET b == \h40 + 4*(i-1) IN W32(256*b + b + 1, 256*(b+2) + b + 3)]
BmwFinal == [i \in 1..16 |-> W32(\haaaa, \haaa0 + i - 1)]

S0(x) == Xor32(Xor32(ShR32(x, 1), ShL32(x, 3)), Xor32(RotL32(x, 4),  RotL32(x, 19)))
S1(x) == Xor32(Xor32(ShR32(x, 1), ShL32(x, 2)), Xor32(RotL32(x, 8),  RotL32(x, 23)))
S2(x) == Xor32(Xor32(ShR32(x, 2), ShL32(x, 1)), Xor32(RotL32(x, 12), RotL32(x, 25)))
S3(x) == Xor32(Xor32(ShR32(x, 2), ShL32(x, 2)), Xor32(RotL32(x, 15), RotL32(x, 29)))
S4(x) == Xor32(ShR32(x, 1), x)
S5(x) == Xor32(ShR32(x, 2), x)
S(j, x) == CASE j = 0 -> S0(x) [] j = 1 -> S1(x) [] j = 2 -> S2(x)
             [] j = 3 -> S3(x) [] j = 4 -> S4(x) [] j = 5 -> S5(x)

\* W_i = sum of five signed terms of (M xor H): <<index, sign>>
WTerms == <<
  << <<5,1>>,  <<7,-1>>, <<10,1>>,  <<13,1>>,  <<14,1>>  >>,
  << <<6,1>>,  <<8,-1>>, <<11,1>>,  <<14,1>>,  <<15,-1>> >>,
  << <<0,1>>,  <<7,1>>,  <<9,1>>,   <<12,-1>>, <<15,1>>  >>,
  << <<0,1>>,  <<1,-1>>, <<8,1>>,   <<10,-1>>, <<13,1>>  >>,
  << <<1,1>>,  <<2,1>>,  <<9,1>>,   <<11,-1>>, <<14,-1>> >>,
  << <<3,1>>,  <<2,-1>>, <<10,1>>,  <<12,-1>>, <<15,1>>  >>,
  << <<4,1>>,  <<0,-1>>, <<3,-1>>,  <<11,-1>>, <<13,1>>  >>,
  << <<1,1>>,  <<4,-1>>, <<5,-1>>,  <<12,-1>>, <<14,-1>> >>,
  << <<2,1>>,  <<5,-1>>, <<6,-1>>,  <<13,1>>,  <<15,-1>> >>,
  << <<0,1>>,  <<3,-1>>, <<6,1>>,   <<7,-1>>,  <<14,1>>  >>,
  << <<8,1>>,  <<1,-1>>, <<4,-1>>,  <<7,-1>>,  <<15,1>>  >>,
  << <<8,1>>,  <<0,-1>>, <<2,-1>>,  <<5,-1>>,  <<9,1>>   >>,
  << <<1,1>>,  <<3,1>>,  <<6,-1>>,  <<9,-1>>,  <<10,1>>  >>,
  << <<2,1>>,  <<4,1>>,  <<7,1>>,   <<10,1>>,  <<11,1>>  >>,
  << <<3,1>>,  <<5,-1>>, <<8,1>>,   <<11,-1>>, <<12,-1>> >>,
  << <<12,1>>, <<4,-1>>, <<6,-1>>,  <<9,-1>>,  <<13,1>>  >> >>

Sum32(s) == FoldLeft(LAMBDA a, x : Add32(a, x), Zero32, s)

\* j * 0x05555555 for j = 16..31 (mod 2^32)
K(j) == LET lo == j * \h5555 IN <<lo % 65536, (j * \h0555 + (lo \div 65536)) % 65536>>

AddElement(m, h, i) ==          \* i = 0..15
    LET Rm(k) == RotL32(m[((i + k) % 16) + 1], ((i + k) % 16) + 1)
    IN  Xor32(Add32(Sub32(Add32(Rm(0), Rm(3)), Rm(10)), K(i + 16)), h[((i + 7) % 16) + 1])

Expand1(q, m, h, i) ==          \* q_i, i = 16, 17
    Add32(Sum32([k \in 1..16 |-> S((k) % 4, q[i - 16 + k])]), AddElement(m, h, i - 16))

RotR2 == <<3, 7, 13, 16, 19, 23, 27>>
Expand2(q, m, h, i) ==          \* q_i, i = 18..31
    Add32(Add32(Sum32([k \in 1..14 |-> IF k % 2 = 1 THEN q[i - 16 + k]
                                        ELSE RotL32(q[i - 16 + k], RotR2[k \div 2])]),
                Add32(S4(q[i - 1]), S5(q[i]))),
          AddElement(m, h, i - 16))

Fold(h0, q, m) ==
    LET XorAll(a, b) == FoldLeft(LAMBDA x, i : Xor32(x, q[i+1]), Zero32, [i \in 1..(b-a+1) |-> a+i-1])
        xl == XorAll(16, 23)
        xh == Xor32(xl, XorAll(24, 31))
        X3(a, b, c) == Xor32(Xor32(a, b), c)
        lo == << Add32(X3(ShL32(xh, 5),  ShR32(q[17], 5), m[1]), X3(xl, q[25], q[1])),
                 Add32(X3(ShR32(xh, 7),  ShL32(q[18], 8), m[2]), X3(xl, q[26], q[2])),
                 Add32(X3(ShR32(xh, 5),  ShL32(q[19], 5), m[3]), X3(xl, q[27], q[3])),
                 Add32(X3(ShR32(xh, 1),  ShL32(q[20], 5), m[4]), X3(xl, q[28], q[4])),
                 Add32(X3(ShR32(xh, 3),  q[21],           m[5]), X3(xl, q[29], q[5])),
                 Add32(X3(ShL32(xh, 6),  ShR32(q[22], 6), m[6]), X3(xl, q[30], q[6])),
                 Add32(X3(ShR32(xh, 4),  ShL32(q[23], 6), m[7]), X3(xl, q[31], q[7])),
                 Add32(X3(ShR32(xh, 11), ShL32(q[24], 2), m[8]), X3(xl, q[32], q[8])) >>
        hx == << ShL32(xl, 8), ShR32(xl, 6), ShL32(xl, 6), ShL32(xl, 4),
                 ShR32(xl, 3), ShR32(xl, 4), ShR32(xl, 7), ShR32(xl, 2) >>
        hi(i) == \* i = 8..15
            Add32(Add32(RotL32(lo[((i + 4 - 8) % 8) + 1], i + 1), X3(xh, q[16 + i + 1], m[i + 1])),
                  X3(hx[i - 7], q[16 + ((i - 9) % 8) + 1], q[i + 1]))
    IN  TLCEval(lo \o [i \in 1..8 |-> hi(i + 7)])

BmwCompress(h, m) ==
    LET Wt(i) == FoldLeft(LAMBDA a, t : LET x == Xor32(m[t[1] + 1], h[t[1] + 1])
                                        IN IF t[2] = 1 THEN Add32(a, x) ELSE Sub32(a, x),
                          Zero32, WTerms[i])
        q0 == Tab(16, LAMBDA i : Add32(S((i - 1) % 5, Wt(i)), h[(i % 16) + 1]))
        q2 == FoldLeft(LAMBDA q, i : Append(q, Expand1(q, m, h, i)), q0, <<16, 17>>)
        q  == FoldLeft(LAMBDA qq, i : Append(qq, Expand2(qq, m, h, i)), q2,
                       <<18,19,20,21,22,23,24,25,26,27,28,29,30,31>>)
    IN  Fold(h, q, m)

\* 10* padding and 64-bit little-endian bit length
BmwPad(msg) == msg \o <<128>> \o Zeros((55 - Len(msg)) % 64)
               \o BytesLE64(Nat64(8 * Len(msg)))

Bmw(msg) ==
    LET p == BmwPad(msg)
        Blk(j) == Tab(16, LAMBDA i : LE32(p, 64*(j-1) + 4*(i-1)))
        h == FoldLeft(LAMBDA x, j : BmwCompress(x, Blk(j)), BmwIV, [j \in 1..(Len(p) \div 64) |-> j])
        f == BmwCompress(BmwFinal, h)
    IN  Concat([i \in 1..8 |-> BytesLE32(f[i + 8])])
=============================================================================
