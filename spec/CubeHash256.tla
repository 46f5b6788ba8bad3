---------------------------- MODULE CubeHash256 ----------------------------
(* CubeHash16/32-256 (Bernstein, SHA-3 round 2 parameters): 16 rounds per  *)
(* 32-byte block, 160 initialisation and finalisation rounds.              *)
EXTENDS Words

\* The ten half-steps of a round on words x[00000]..x[11111] (index + 1).
LOCAL Flip(i, bit) == ((i - 1) ^^ bit) + 1              \* flip an address bit
LOCAL Up(i) == i + 16                                   \* x[1jklm]

CubeRound(x) ==
    LET a1 == Tab(16, LAMBDA i : Add32(x[i], x[Up(i)]))              \* add x0 into x1
        b1 == Tab(16, LAMBDA i : RotL32(x[i], 7))                    \* rotate x0
        b2 == Tab(16, LAMBDA i : b1[Flip(i, 8)])                     \* swap x00 <-> x01
        b3 == Tab(16, LAMBDA i : Xor32(b2[i], a1[i]))                \* xor x1 into x0
        a2 == Tab(16, LAMBDA i : a1[Flip(i, 2)])                     \* swap x1..0. <-> x1..1.
        a3 == Tab(16, LAMBDA i : Add32(b3[i], a2[i]))
        b4 == Tab(16, LAMBDA i : RotL32(b3[i], 11))
        b5 == Tab(16, LAMBDA i : b4[Flip(i, 4)])
        b6 == Tab(16, LAMBDA i : Xor32(b5[i], a3[i]))
        a4 == Tab(16, LAMBDA i : a3[Flip(i, 1)])
    IN  TLCEval([i \in 1..32 |-> IF i <= 16 THEN b6[i] ELSE a4[i-16]])

CubeRounds(x, n) == FoldLeft(LAMBDA y, i : CubeRound(y), x, [i \in 1..n |-> i])

\* h/8, b, r in the first three words, then 10*16 rounds
CubeIV == CubeRounds([i \in 1..32 |-> CASE i = 1 -> Nat32(32) [] i = 2 -> Nat32(32)
                                        [] i = 3 -> Nat32(16) [] OTHER -> Zero32], 160)

CubeBlock(x, b) ==      \* b: 32 bytes
    CubeRounds(TLCEval([i \in 1..32 |-> IF i <= 8 THEN Xor32(x[i], LE32(b, 4*(i-1))) ELSE x[i]]), 16)

\* Message padded with 0x80 and zeros to a multiple of 32 bytes
CubePad(m) == m \o <<128>> \o Zeros((31 - (Len(m) % 32)) % 32)

CubeHash(m) ==
    LET p == CubePad(m)
        h == FoldLeft(LAMBDA x, j : CubeBlock(x, SubSeq(p, 32*(j-1)+1, 32*j)),
                      CubeIV, [j \in 1..(Len(p) \div 32) |-> j])
        f == CubeRounds([h EXCEPT ![32] = Xor32(h[32], Nat32(1))], 160)
    IN  Concat([i \in 1..8 |-> BytesLE32(f[i])])
=============================================================================
