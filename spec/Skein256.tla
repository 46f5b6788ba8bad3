------------------------------ MODULE Skein256 ------------------------------
(* Skein-512-256 v1.3 (Threefish-512 in UBI mode, 256-bit output).         *)
EXTENDS Words

TfRot == << <<46,36,19,37>>, <<33,27,14,42>>, <<17,49,36,39>>, <<44, 9,54,56>>,
            <<39,30,34,24>>, <<13,50,10,17>>, <<25,29,39,43>>, << 8,35,56,22>> >>
TfPerm == <<3, 2, 5, 8, 7, 6, 1, 4>>
C240 == W64(\h1bd1, \h1bda, \ha9fc, \h1a22)

TfRound(v, r) ==
    LET Y(j) == Add64(v[2*j-1], v[2*j])
        z == Concat([j \in 1..4 |-> LET y == Y(j)
                                    IN  <<y, Xor64(RotL64(v[2*j], TfRot[r][j]), y)>>])
    IN  Tab(8, LAMBDA i : z[TfPerm[i]])

\* k: 8 key words, t: 2 tweak words, x: 8 plaintext words
Threefish(k, t, x) ==
    LET k8 == FoldLeft(LAMBDA a, w : Xor64(a, w), C240, k)
        kk == Append(k, k8)
        tt == <<t[1], t[2], Xor64(t[1], t[2])>>
        Key(s) == Tab(8, LAMBDA i :
                    LET w == kk[((s + i - 1) % 9) + 1]
                    IN  CASE i = 6 -> Add64(w, tt[(s % 3) + 1])
                          [] i = 7 -> Add64(w, tt[((s + 1) % 3) + 1])
                          [] i = 8 -> Add64(w, Nat64(s))
                          [] OTHER -> w)
        AddKey(v, s) == LET key == Key(s) IN Tab(8, LAMBDA i : Add64(v[i], key[i]))
        Four(v, s) == LET w == AddKey(v, s)
                          o == IF s % 2 = 0 THEN 0 ELSE 4
                      IN  TfRound(TfRound(TfRound(TfRound(w, o+1), o+2), o+3), o+4)
    IN  AddKey(FoldLeft(Four, x, <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17>>), 18)

\* One UBI block; hi is the top 16 bits of the tweak (final, first, type).
UbiBlock(h, pos, hi, bytes) ==
    LET b == bytes \o Zeros(64 - Len(bytes))
        x == Tab(8, LAMBDA i : LE64(b, 8*(i-1)))
        e == Threefish(h, <<Nat64(pos), W64(hi, 0, 0, 0)>>, x)
    IN  Tab(8, LAMBDA i : Xor64(e[i], x[i]))

\* Type t in bits 120-125, first = bit 126, final = bit 127 of the tweak.
Flags(t, first, final) == 256*t + (IF first THEN 16384 ELSE 0) + (IF final THEN 32768 ELSE 0)

SkeinCfg == <<\h53, \h48, \h41, \h33, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>> \o Zeros(16)   \* "SHA3", v1, 256 bits
SkeinIV == UbiBlock([i \in 1..8 |-> Zero64], 32, Flags(4, TRUE, TRUE), SkeinCfg)

Skein(m) ==
    LET n == IF Len(m) = 0 THEN 1 ELSE (Len(m) + 63) \div 64
        B(h, j) == LET hiB == IF j = n THEN Len(m) ELSE 64*j
                   IN  UbiBlock(h, hiB, Flags(48, j = 1, j = n), SubSeq(m, 64*(j-1)+1, hiB))
        g == FoldLeft(B, SkeinIV, [j \in 1..n |-> j])
        o == UbiBlock(g, 8, Flags(63, TRUE, TRUE), Zeros(8))
    IN  Concat([i \in 1..4 |-> BytesLE64(o[i])])
=============================================================================
