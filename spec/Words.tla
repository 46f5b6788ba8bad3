------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words.  TLC integers are 32-bit signed, so a 32-bit word is a   *)
(* pair and a 64-bit word a quadruple of 16-bit limbs, least significant   *)
(* limb first.  All arithmetic is modulo 2^32 / 2^64 by construction.      *)
(* A byte string is a sequence of 0..255.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC, SequencesExt

\* Pow2[n+1] = 2^n, n \in 0..16
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
          16384, 32768, 65536>>

Byte == 0..255

\* Sequence comprehension, evaluated once (TLC would otherwise re-evaluate
\* the body at every application).
Tab(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])

(* ------------------------------ 32 bits ------------------------------- *)
W32(hi, lo) == <<lo, hi>>
Zero32 == <<0, 0>>
Nat32(n) == <<n % 65536, (n \div 65536) % 65536>>      \* n < 2^31

Xor32(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Add32(x, y) ==
    LET a == x[1] + y[1]
        b == x[2] + y[2] + (a \div 65536)
    IN  <<a % 65536, b % 65536>>
Sub32(x, y) ==
    LET a == 65536 + x[1] - y[1]
        b == 65535 + x[2] - y[2] + (a \div 65536)
    IN  <<a % 65536, b % 65536>>

\* (a:b) shifted left by m \in 0..15, upper limb of the result
LOCAL Mix(a, b, m) == ((a * Pow2[m+1]) % 65536) + (b \div Pow2[17-m])

RotL32(x, n) ==
    LET m == n % 16
    IN  IF n >= 16 THEN <<Mix(x[2], x[1], m), Mix(x[1], x[2], m)>>
                   ELSE <<Mix(x[1], x[2], m), Mix(x[2], x[1], m)>>
RotR32(x, n) == RotL32(x, (32 - n) % 32)
ShL32(x, n) ==                                         \* n \in 0..31
    LET m == n % 16
    IN  IF n >= 16 THEN <<0, Mix(x[1], 0, m)>>
                   ELSE <<Mix(x[1], 0, m), Mix(x[2], x[1], m)>>
ShR32(x, n) ==                                         \* n \in 1..15
    <<Mix(x[2], x[1], 16 - n), x[2] \div Pow2[n+1]>>

(* ------------------------------ 64 bits ------------------------------- *)
W64(d, c, b, a) == <<a, b, c, d>>                      \* written as in hex
Zero64 == <<0, 0, 0, 0>>
Nat64(n) == <<n % 65536, (n \div 65536) % 65536, 0, 0>>  \* n < 2^31

Xor64(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
And64(x, y) == <<x[1] & y[1], x[2] & y[2], x[3] & y[3], x[4] & y[4]>>
Not64(x) == <<65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4]>>
Add64(x, y) ==
    LET a == x[1] + y[1]
        b == x[2] + y[2] + (a \div 65536)
        c == x[3] + y[3] + (b \div 65536)
        d == x[4] + y[4] + (c \div 65536)
    IN  <<a % 65536, b % 65536, c % 65536, d % 65536>>
RotL64(x, n) ==
    LET q == n \div 16
        m == n % 16
        y == CASE q = 0 -> x
               [] q = 1 -> <<x[4], x[1], x[2], x[3]>>
               [] q = 2 -> <<x[3], x[4], x[1], x[2]>>
               [] q = 3 -> <<x[2], x[3], x[4], x[1]>>
    IN  IF m = 0 THEN y
        ELSE <<Mix(y[1], y[4], m), Mix(y[2], y[1], m),
               Mix(y[3], y[2], m), Mix(y[4], y[3], m)>>
RotR64(x, n) == RotL64(x, (64 - n) % 64)

\* Value of a 64-bit word modulo a power of two not above 2^16, and its
\* bitwise conjunction with a mask below 2^31.
Low64(x, m) == x[1] % m
Mask64(x, m) == (x[1] & (m % 65536)) + 65536 * (x[2] & (m \div 65536))

(* ----------------------- bytes <-> words ------------------------------ *)
\* Little endian; o is the number of bytes to skip.
LE32(b, o) == <<b[o+1] + 256 * b[o+2], b[o+3] + 256 * b[o+4]>>
LE64(b, o) == <<b[o+1] + 256 * b[o+2], b[o+3] + 256 * b[o+4],
                b[o+5] + 256 * b[o+6], b[o+7] + 256 * b[o+8]>>
BE32(b, o) == <<b[o+4] + 256 * b[o+3], b[o+2] + 256 * b[o+1]>>

BytesLE32(x) == <<x[1] % 256, x[1] \div 256, x[2] % 256, x[2] \div 256>>
BytesLE64(x) == <<x[1] % 256, x[1] \div 256, x[2] % 256, x[2] \div 256,
                  x[3] % 256, x[3] \div 256, x[4] % 256, x[4] \div 256>>
BytesBE32(x) == <<x[2] \div 256, x[2] % 256, x[1] \div 256, x[1] % 256>>

Concat(seqs) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, seqs)
Zeros(n) == [i \in 1..n |-> 0]

\* Lower-case hexadecimal text of a byte string (for messages and vectors)
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex(b) == FoldLeft(LAMBDA acc, x : acc \o HexDigit[(x \div 16) + 1] \o HexDigit[(x % 16) + 1], "", b)
=============================================================================
