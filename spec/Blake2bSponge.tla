--------------------------- MODULE Blake2bSponge ---------------------------
(***************************************************************************)
(* The sponge under Lyra2: 16 words of 64 bits, permuted by BLAKE2b's      *)
(* round function without message injection.  Rate 12 words (96 bytes),    *)
(* capacity 4; the input is absorbed in 8-word ("BLAKE2b-safe") blocks.    *)
(***************************************************************************)
EXTENDS Words

IV2b == << W64(\h6a09, \he667, \hf3bc, \hc908), W64(\hbb67, \hae85, \h84ca, \ha73b),
           W64(\h3c6e, \hf372, \hfe94, \hf82b), W64(\ha54f, \hf53a, \h5f1d, \h36f1),
           W64(\h510e, \h527f, \hade6, \h82d1), W64(\h9b05, \h688c, \h2b3e, \h6c1f),
           W64(\h1f83, \hd9ab, \hfb41, \hbd6b), W64(\h5be0, \hcd19, \h137e, \h2179) >>

SpongeInit == <<Zero64, Zero64, Zero64, Zero64, Zero64, Zero64, Zero64, Zero64>> \o IV2b

\* BLAKE2b's quarter round
G2b(a, b, c, d) ==
    LET a1 == Add64(a, b)
        d1 == RotR64(Xor64(d, a1), 32)
        c1 == Add64(c, d1)
        b1 == RotR64(Xor64(b, c1), 24)
        a2 == Add64(a1, b1)
        d2 == RotR64(Xor64(d1, a2), 16)
        c2 == Add64(c1, d2)
        b2 == RotR64(Xor64(b1, c2), 63)
    IN  <<a2, b2, c2, d2>>

\* One round: four columns, then four diagonals.
Round2b(v) ==
    LET p == G2b(v[1], v[5], v[9],  v[13])
        q == G2b(v[2], v[6], v[10], v[14])
        r == G2b(v[3], v[7], v[11], v[15])
        s == G2b(v[4], v[8], v[12], v[16])
        t == G2b(p[1], q[2], r[3], s[4])
        u == G2b(q[1], r[2], s[3], p[4])
        w == G2b(r[1], s[2], p[3], q[4])
        x == G2b(s[1], p[2], q[3], r[4])
    IN  << t[1], u[1], w[1], x[1],  x[2], t[2], u[2], w[2],
           w[3], x[3], t[3], u[3],  u[4], w[4], x[4], t[4] >>

Perm1(v) == Round2b(v)                                  \* reduced
Perm12(v) == FoldLeft(LAMBDA x, i : Round2b(x), v, <<1,2,3,4,5,6,7,8,9,10,11,12>>)

Rate == 12                                              \* words
\* Add a block of n words to the first n words of the state
Inject(v, b, n) == Tab(16, LAMBDA i : IF i <= n THEN Xor64(v[i], b[i]) ELSE v[i])
RateWords(v) == SubSeq(v, 1, Rate)

XorBlock(a, b) == Tab(Rate, LAMBDA i : Xor64(a[i], b[i]))
AddBlock(a, b) == Tab(Rate, LAMBDA i : Add64(a[i], b[i]))
\* rotW: rotate the rate part of the state by one word
RotW(v) == <<v[12], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]>>
=============================================================================
