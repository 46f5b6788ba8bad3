----------------------------- MODULE Keccak256 -----------------------------
(* Keccak[c=512] with the original 0x01 padding (not SHA3-256), 32 bytes.  *)
EXTENDS Words

LOCAL L(x, y) == x + 5*y + 1
Rho == << 0,  1, 62, 28, 27,
         36, 44,  6, 55, 20,
          3, 10, 43, 25, 39,
         41, 45, 15, 21,  8,
         18,  2, 61, 56, 14 >>
RC == << W64(0, 0, 0, \h0001), W64(0, 0, 0, \h8082), W64(\h8000, 0, 0, \h808a),
         W64(\h8000, 0, \h8000, \h8000), W64(0, 0, 0, \h808b), W64(0, 0, \h8000, \h0001),
         W64(\h8000, 0, \h8000, \h8081), W64(\h8000, 0, 0, \h8009), W64(0, 0, 0, \h008a),
         W64(0, 0, 0, \h0088), W64(0, 0, \h8000, \h8009), W64(0, 0, \h8000, \h000a),
         W64(0, 0, \h8000, \h808b), W64(\h8000, 0, 0, \h008b), W64(\h8000, 0, 0, \h8089),
         W64(\h8000, 0, 0, \h8003), W64(\h8000, 0, 0, \h8002), W64(\h8000, 0, 0, \h0080),
         W64(0, 0, 0, \h800a), W64(\h8000, 0, \h8000, \h000a), W64(\h8000, 0, \h8000, \h8081),
         W64(\h8000, 0, 0, \h8080), W64(0, 0, \h8000, \h0001), W64(\h8000, 0, \h8000, \h8008) >>

KeccakRound(a, rc) ==
    LET c == Tab(5, LAMBDA x : Xor64(Xor64(Xor64(a[x], a[x+5]), Xor64(a[x+10], a[x+15])), a[x+20]))
        d == Tab(5, LAMBDA x : Xor64(c[((x + 3) % 5) + 1], RotL64(c[(x % 5) + 1], 1)))
        e == Tab(25, LAMBDA i : RotL64(Xor64(a[i], d[((i-1) % 5) + 1]), Rho[i]))
        \* pi: B[y, 2x+3y] = A[x, y]; inverse: the lane that moves to (X, Y) is ((X+3Y) mod 5, X)
        b == Tab(25, LAMBDA i : LET X == (i-1) % 5  Y == (i-1) \div 5
                                IN  e[L((X + 3*Y) % 5, X)])
        f == Tab(25, LAMBDA i : LET X == (i-1) % 5  Y == (i-1) \div 5
                                IN  Xor64(b[i], And64(Not64(b[L((X+1) % 5, Y)]), b[L((X+2) % 5, Y)])))
    IN  [f EXCEPT ![1] = Xor64(f[1], rc)]

KeccakF(a) == FoldLeft(LAMBDA x, rc : KeccakRound(x, rc), a, RC)

KeccakPad(m) == LET z == 135 - (Len(m) % 136)
                IN  IF z = 0 THEN m \o <<129>> ELSE m \o <<1>> \o Zeros(z - 1) \o <<128>>

Keccak(m) ==
    LET p == KeccakPad(m)
        Absorb(a, j) == KeccakF(Tab(25, LAMBDA i : IF i <= 17 THEN Xor64(a[i], LE64(p, 136*(j-1) + 8*(i-1)))
                                                   ELSE a[i]))
        a == FoldLeft(Absorb, [i \in 1..25 |-> Zero64], [j \in 1..(Len(p) \div 136) |-> j])
    IN  Concat([i \in 1..4 |-> BytesLE64(a[i])])
=============================================================================
