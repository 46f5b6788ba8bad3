----------------------------- MODULE Blake256 -----------------------------
(* BLAKE-256, the 14-round SHA-3 finalist, without salt.                   *)
EXTENDS Words

BlakeIV == << W32(\h6a09, \he667), W32(\hbb67, \hae85), W32(\h3c6e, \hf372), W32(\ha54f, \hf53a),
              W32(\h510e, \h527f), W32(\h9b05, \h688c), W32(\h1f83, \hd9ab), W32(\h5be0, \hcd19) >>

BlakeC == << W32(\h243f, \h6a88), W32(\h85a3, \h08d3), W32(\h1319, \h8a2e), W32(\h0370, \h7344),
             W32(\ha409, \h3822), W32(\h299f, \h31d0), W32(\h082e, \hfa98), W32(\hec4e, \h6c89),
             W32(\h4528, \h21e6), W32(\h38d0, \h1377), W32(\hbe54, \h66cf), W32(\h34e9, \h0c6c),
             W32(\hc0ac, \h29b7), W32(\hc97c, \h50dd), W32(\h3f84, \hd5b5), W32(\hb547, \h0917) >>

Sigma == << << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,10,11,12,13,14,15>>,
            <<14,10, 4, 8, 9,15,13, 6, 1,12, 0, 2,11, 7, 5, 3>>,
            <<11, 8,12, 0, 5, 2,15,13,10,14, 3, 6, 7, 1, 9, 4>>,
            << 7, 9, 3, 1,13,12,11,14, 2, 6, 5,10, 4, 0,15, 8>>,
            << 9, 0, 5, 7, 2, 4,10,15,14, 1,11,12, 6, 8, 3,13>>,
            << 2,12, 6,10, 0,11, 8, 3, 4,13, 7, 5,15,14, 1, 9>>,
            <<12, 5, 1,15,14,13, 4,10, 0, 7, 6, 3, 9, 2, 8,11>>,
            <<13,11, 7,14,12, 1, 3, 9, 5, 0,15, 4, 8, 6, 2,10>>,
            << 6,15,14, 9,11, 3, 0, 8,12, 2,13, 7, 1, 4,10, 5>>,
            <<10, 2, 8, 4, 7, 6, 1, 5,15,11, 9,14, 3,12,13, 0>> >>

BlakeG(m, r, i, a, b, c, d) ==
    LET s  == Sigma[(r % 10) + 1]
        j  == s[2*i + 1]
        k  == s[2*i + 2]
        a1 == Add32(Add32(a, b), Xor32(m[j+1], BlakeC[k+1]))
        d1 == RotR32(Xor32(d, a1), 16)
        c1 == Add32(c, d1)
        b1 == RotR32(Xor32(b, c1), 12)
        a2 == Add32(Add32(a1, b1), Xor32(m[k+1], BlakeC[j+1]))
        d2 == RotR32(Xor32(d1, a2), 8)
        c2 == Add32(c1, d2)
        b2 == RotR32(Xor32(b1, c2), 7)
    IN  <<a2, b2, c2, d2>>

BlakeRound(m, v, rd) ==
    LET p == BlakeG(m, rd, 0, v[1], v[5], v[9],  v[13])
        q == BlakeG(m, rd, 1, v[2], v[6], v[10], v[14])
        r == BlakeG(m, rd, 2, v[3], v[7], v[11], v[15])
        s == BlakeG(m, rd, 3, v[4], v[8], v[12], v[16])
        t == BlakeG(m, rd, 4, p[1], q[2], r[3], s[4])
        u == BlakeG(m, rd, 5, q[1], r[2], s[3], p[4])
        w == BlakeG(m, rd, 6, r[1], s[2], p[3], q[4])
        x == BlakeG(m, rd, 7, s[1], p[2], q[3], r[4])
    IN  << t[1], u[1], w[1], x[1],  x[2], t[2], u[2], w[2],
           w[3], x[3], t[3], u[3],  u[4], w[4], x[4], t[4] >>

\* t: number of message bits hashed so far (0 for a block of padding only)
BlakeCompress(h, m, t) ==
    LET t0 == Nat32(t)
        v0 == h \o << BlakeC[1], BlakeC[2], BlakeC[3], BlakeC[4],
                      Xor32(t0, BlakeC[5]), Xor32(t0, BlakeC[6]), BlakeC[7], BlakeC[8] >>
        v  == FoldLeft(LAMBDA x, r : BlakeRound(m, x, r), v0, <<0,1,2,3,4,5,6,7,8,9,10,11,12,13>>)
    IN  Tab(8, LAMBDA i : Xor32(Xor32(h[i], v[i]), v[i+8]))

\* 1 0* 1, then the 64-bit big-endian bit length; 55 bytes leave one pad byte.
BlakePad(msg) ==
    LET z == (55 - Len(msg)) % 64
        pad == IF z = 0 THEN <<129>> ELSE <<128>> \o Zeros(z - 1) \o <<1>>
    IN  msg \o pad \o <<0, 0, 0, 0>> \o BytesBE32(Nat32(8 * Len(msg)))

Blake(msg) ==
    LET p == BlakePad(msg)
        n == Len(msg)
        Blk(j) == Tab(16, LAMBDA i : BE32(p, 64*(j-1) + 4*(i-1)))
        Count(j) == IF 64*j <= n THEN 512*j ELSE IF 64*(j-1) < n THEN 8*n ELSE 0
        h == FoldLeft(LAMBDA x, j : BlakeCompress(x, Blk(j), Count(j)), BlakeIV,
                      [j \in 1..(Len(p) \div 64) |-> j])
    IN  Concat([i \in 1..8 |-> BytesBE32(h[i])])
=============================================================================
