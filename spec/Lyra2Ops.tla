------------------------------ MODULE Lyra2Ops ------------------------------
(***************************************************************************)
(* Data operations of Lyra2: input encoding, domain, and the four row      *)
(* operations.  A block is 12 words; a matrix row is a sequence of C       *)
(* blocks, columns 0..C-1 at positions 1..C.                               *)
(***************************************************************************)
EXTENDS Blake2bSponge

\* Parameters: [mod, k, pwd, salt, t, r, c]

(* ---- Input encoding ------------------------------------------------- *)
\* NAMED DEVIATION: the implementation absorbs only whole 8-byte words of
\* the password and of the salt; the last Len % 8 bytes of each are dropped
\* (their number is still encoded, through the length).  See the known
\* finding on C02.
WholeWords(b) == Tab(Len(b) \div 8, LAMBDA i : LE64(b, 8*(i-1)))

\* 64-byte blocks of pwd || salt || six parameters || padding, from the two lengths
BlocksFor(pl, sl) == ((pl + sl + 48) \div 64) + 1
InputBlocks(p) == BlocksFor(Len(p.pwd), Len(p.salt))

\* pwd || salt || k || |pwd| || |salt| || T || R || C || 10*1
Encode(p) ==
    LET w == WholeWords(p.pwd) \o WholeWords(p.salt)
             \o << Nat64(p.k), Nat64(Len(p.pwd)), Nat64(Len(p.salt)),
                   Nat64(p.t), Nat64(p.r), Nat64(p.c), W64(0, 0, 0, \h0080) >>
        z == w \o [i \in 1..(8 * InputBlocks(p) - Len(w)) |-> Zero64]
    IN  [z EXCEPT ![Len(z)] = Xor64(@, W64(\h0100, 0, 0, 0))]
InputBlock(e, j) == SubSeq(e, 8*(j-1)+1, 8*j)

(* ---- Domain ---------------------------------------------------------- *)
Accepts(pl, sl, t, r, c) ==
    /\ t >= 1 /\ r >= 3 /\ c >= 1
    /\ 8 * BlocksFor(pl, sl) <= Rate * r * c            \* input fits in the matrix
InDomain(p) == Accepts(Len(p.pwd), Len(p.salt), p.t, p.r, p.c)
\* Largest total of password and salt bytes that an r x c matrix accepts (-1: none)
Capacity(r, c) == 64 * ((Rate * r * c) \div 8) - 49

(* ---- Row operations: each returns <<sponge, new rows ...>> ----------- *)
LOCAL Cols(C) == [i \in 1..C |-> i]

\* M[0][C-1-i] = squeeze
FillRow0(v, C) ==
    FoldLeft(LAMBDA a, i : << Perm1(a[1]), <<RateWords(a[1])>> \o a[2] >>, <<v, <<>>>>, Cols(C))

\* M[1][C-1-i] = M[0][i] xor rand
FillRow1(v, r0) ==
    FoldLeft(LAMBDA a, i : LET s == Perm1(Inject(a[1], r0[i], Rate))
                           IN  << s, <<XorBlock(r0[i], s)>> \o a[2] >>,
             <<v, <<>>>>, Cols(Len(r0)))

\* M[row][C-1-i] = M[prev][i] xor rand;  M[row*][i] = M[row*][i] xor rotW(rand)
FillRow(v, p, q) ==
    FoldLeft(LAMBDA a, i : LET s == Perm1(Inject(a[1], AddBlock(p[i], q[i]), Rate))
                           IN  << s, <<XorBlock(p[i], s)>> \o a[2],
                                  Append(a[3], XorBlock(q[i], RotW(s))) >>,
             <<v, <<>>, <<>>>>, Cols(Len(p)))

\* M[row][i] = M[row][i] xor rand;  M[row*][i] = M[row*][i] xor rotW(rand)
\* same: row = row*, so the second update applies to the result of the first
WanderRow(v, p, q, o, same) ==
    FoldLeft(LAMBDA a, i : LET s == Perm1(Inject(a[1], AddBlock(p[i], q[i]), Rate))
                               n == XorBlock(o[i], s)
                           IN  << s, Append(a[2], n),
                                  Append(a[3], XorBlock(IF same THEN n ELSE q[i], RotW(s))) >>,
             <<v, <<>>, <<>>>>, Cols(Len(p)))

\* Row selection while wandering.  Plain Lyra2 masks sponge word 0; the
\* modified version first moves the running index: idx := low bits of the
\* word idx selects, then masks the word the new index selects.
NextIndex(mod, v, idx) == IF mod THEN Low64(v[idx + 1], 16) ELSE 0
SelectRow(v, idx, R) == Mask64(v[idx + 1], R - 1)

SqueezeBlock(v) == Concat([i \in 1..Rate |-> BytesLE64(v[i])])   \* 96 bytes
=============================================================================
