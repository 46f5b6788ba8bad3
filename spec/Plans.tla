------------------------------- MODULE Plans -------------------------------
(***************************************************************************)
(* Case plans: the abstract cases (sizes, costs, call classes) at which    *)
(* the real code is run, derived from the specification's own case         *)
(* distinctions (block, window and capacity boundaries) and enumerated     *)
(* completely.  Byte contents are filled in from the seed by the runner.   *)
(*   PLAN names the plan, OUT the file that receives one case per line.    *)
(***************************************************************************)
EXTENDS Lyra2Ops, FiniteSetsExt, Json, IOUtils
CONSTANT Deep

Case(k, pl, sl, t, r, c) == [k |-> k, pl |-> pl, sl |-> sl, t |-> t, r |-> r, c |-> c]
Around(S) == { x + d : x \in S, d \in {-1, 0, 1} }

\* C13: every row count in a range and around the window sizes, several passes
SchedR == (3..40) \cup Around({48, 64, 96, 128}) \cup (IF Deep THEN 41..140 \cup Around({256, 512}) ELSE {})
Sched == { Case(32, 8, 8, t, r, 1) : t \in 1..(IF Deep THEN 6 ELSE 3), r \in SchedR }
\* C01: cost settings of all shapes
CostT == {1, 2, 3, 4, 7, 16, 33}
CostR == {3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64}
CostC == {1, 2, 3, 4, 5, 8, 16, 33}
Costs == { x \in { Case(32, 8, 8, t, r, c) : t \in CostT, r \in CostR, c \in CostC } :
             (x.t + 1) * x.r * x.c <= (IF Deep THEN 3000 ELSE 300) }
         \cup { Case(32, 8, 8, t, r, 1) : t \in {100, 255, 256, 257}, r \in {3, 4} }
         \cup { Case(32, 8, 8, 1, r, 1) : r \in {255, 256, 257} }
         \cup { Case(32, 8, 8, 1, 3, c) : c \in {64, 127, 128, 129, 255, 256, 257} }
\* C03: every short key, and keys around the ends of sponge blocks
KLens == (0..110) \cup Around({ 96 * j : j \in 1..12 }) \cup Around({256, 512, 1024}) \cup {200, 333, 2000}
Keys == { Case(k, 8, 16, 1, rc[1], rc[2]) : k \in KLens, rc \in (IF Deep THEN {<<3,1>>, <<4,4>>, <<8,3>>} ELSE {<<3, 1>>}) }
\* C02: lengths around words and absorbed blocks
Lens == {0, 1, 7, 8, 9, 15, 16, 17, 24, 32, 40, 48, 56, 63, 64, 65, 72, 80, 96, 120, 128}
Lengths == { Case(32, a, b, 1, 4, 4) : a \in Lens, b \in Lens }
Aligned == { Case(k, 8 * a, 8 * b, t, 4, c) : k \in {31, 32}, a \in 0..9, b \in 0..9, t \in {1}, c \in {3} }
\* C04: both sides of every edge of the domain
Edge(r, c) == { x \in { Capacity(r, c) + d : d \in {-64, -1, 0, 1, 2, 8, 64} } \cup {0, 8} : x >= 0 }
Split(n) == { <<0, n>>, <<n, 0>>, <<n \div 2, n - (n \div 2)>>, <<8 * ((n \div 8) \div 3), n - 8 * ((n \div 8) \div 3)>> }
Domain == { Case(k, s[1], s[2], t, r, c) :
              k \in {32}, t \in {1, 2}, r \in 3..9, c \in 1..4, s \in {<<0, 0>>} }
          \cup UNION { { Case(32, s[1], s[2], t, r, c) : s \in UNION { Split(n) : n \in Edge(r, c) } } :
                         t \in {0, 1, 2}, r \in (IF Deep THEN 0..20 ELSE {0, 1, 2, 3, 4, 5, 7, 8}),
                         c \in (IF Deep THEN 0..8 ELSE 0..3) }
          \cup { Case(32, 8, 8, t, r, 1) : t \in {1, 2, 3}, r \in (3..80) \cup Around({128, 256, 512, 1024}) }
          \cup { Case(k, 8, 8, 1, 4, 2) : k \in {0, 1, 95, 96, 97, 192, 193, 1000} }
\* coin digests: lengths around the hash blocks
CoinLens == {0, 1, 2, 31, 32, 33} \cup (54..57) \cup (62..66) \cup (79..81) \cup {100}
            \cup (110..113) \cup (118..121) \cup (127..129) \cup {180, 192, 256}
            \cup (IF Deep THEN 3..140 \cup {300, 511, 512, 513, 1000} ELSE {})
Fillings == {"random", "zeros", "ones"}
Coin == { [len |-> n, fill |-> f] : n \in CoinLens, f \in Fillings }
\* C09: call classes; the runner chains histories that contain every triple
Classes == {"small", "wide", "tall", "long", "key0", "bigkey", "panic_t", "panic_r", "panic_len",
            "re", "rev2", "rev3", "z", "sum", "sum_long"}
History == { <<a, b>> : a \in Classes, b \in Classes }

Plan == CASE IOEnv.PLAN = "sched" -> Sched     [] IOEnv.PLAN = "costs" -> Costs
          [] IOEnv.PLAN = "keys" -> Keys       [] IOEnv.PLAN = "lengths" -> Lengths
          [] IOEnv.PLAN = "aligned" -> Aligned [] IOEnv.PLAN = "domain" -> Domain
          [] IOEnv.PLAN = "coin" -> Coin       [] IOEnv.PLAN = "history" -> History
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Plan))
=============================================================================
