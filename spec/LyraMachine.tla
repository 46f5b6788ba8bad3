---------------------------- MODULE LyraMachine ----------------------------
(***************************************************************************)
(* The machine that executes one call of the library.                      *)
(*                                                                         *)
(* A call is a record; its pipeline is a sequence of stages.  The fixed    *)
(* hash functions are one action each; a Lyra2 stage is one action per     *)
(* absorbed block, per filled row, per wandering row, per pass and per     *)
(* squeezed block.  A call ends in pc = "done" with its value in buf, or   *)
(* in pc = "rejected" (the function panics).                               *)
(***************************************************************************)
EXTENDS Lyra2Ops, Blake256, Keccak256, Skein256, Groestl256, CubeHash256, Bmw256

VARIABLES
    call,       \* the call being executed (record)
    pc, stage,
    buf,        \* bytes handed from stage to stage; finally the result
    par,        \* parameters of the current Lyra2 stage
    enc, blk,   \* encoded input (words), blocks absorbed so far
    v,          \* sponge
    mat,        \* memory matrix: sequence of the rows filled so far
    row, prev, rowa, step, window, gap, tau,
    idx         \* running index of the modified version
lyraVars == <<par, enc, blk, v, mat, row, prev, rowa, step, window, gap, tau, idx>>
vars == <<call, pc, stage, buf, lyraVars>>

(* ----------------------------- pipelines ------------------------------ *)
H(name) == [op |-> name]
LyraS(mod, T, R, C) == [op |-> "lyra", mod |-> mod, t |-> T, r |-> R, c |-> C]

Pipeline(fn) ==
    CASE fn = "lyra2re"   -> <<H("blake"), H("keccak"), LyraS(FALSE, 1, 8, 8), H("skein"), H("groestl")>>
      [] fn = "lyra2rev2" -> <<H("blake"), H("keccak"), H("cube"), LyraS(FALSE, 1, 4, 4),
                               H("skein"), H("cube"), H("bmw")>>
      [] fn = "lyra2rev3" -> <<H("blake"), LyraS(TRUE, 1, 4, 4), H("cube"), LyraS(TRUE, 1, 4, 4), H("bmw")>>
      [] fn = "lyra2z"    -> <<H("blake"), LyraS(FALSE, 8, 8, 8)>>
      [] fn = "lyra2sum"  -> <<LyraS(FALSE, 1, 4, 4)>>
      [] fn = "lyra2"     -> <<[op |-> "lyracall", mod |-> FALSE]>>
      [] fn = "lyra2mod"  -> <<[op |-> "lyracall", mod |-> TRUE]>>
      [] fn = "cubehash"  -> <<H("cube")>>
      [] fn = "bmw"       -> <<H("bmw")>>
      [] fn = "blake"     -> <<H("blake")>>
OneArg(fn) == fn \notin {"lyra2", "lyra2mod"}

Apply(name, b) ==
    CASE name = "blake" -> Blake(b)   [] name = "keccak"  -> Keccak(b)
      [] name = "skein" -> Skein(b)   [] name = "groestl" -> Groestl(b)
      [] name = "cube"  -> CubeHash(b) [] name = "bmw"    -> Bmw(b)

Idle == /\ par = [mod |-> FALSE, k |-> 0, pwd |-> <<>>, salt |-> <<>>, t |-> 0, r |-> 0, c |-> 0]
        /\ enc = <<>> /\ blk = 0 /\ v = <<>> /\ mat = <<>>
        /\ row = 0 /\ prev = 0 /\ rowa = 0 /\ step = 0 /\ window = 0 /\ gap = 0 /\ tau = 0
        /\ idx = 0

Start(cl) == /\ call = cl /\ pc = "stage" /\ stage = 1
             /\ buf = IF OneArg(cl.fn) THEN cl.input ELSE <<>>
             /\ Idle

Cur == Pipeline(call.fn)[stage]
AtStage == pc = "stage" /\ stage <= Len(Pipeline(call.fn))

(* ------------------------------ actions ------------------------------- *)
HashStage ==
    /\ AtStage /\ Cur.op \notin {"lyra", "lyracall"}
    /\ buf' = Apply(Cur.op, buf)
    /\ stage' = stage + 1
    /\ UNCHANGED <<call, pc, lyraVars>>

EnterLyra ==
    /\ AtStage /\ Cur.op \in {"lyra", "lyracall"}
    /\ LET p == IF Cur.op = "lyra"
                THEN [mod |-> Cur.mod, k |-> 32, pwd |-> buf, salt |-> buf,
                      t |-> Cur.t, r |-> Cur.r, c |-> Cur.c]
                ELSE [mod |-> Cur.mod, k |-> call.k, pwd |-> call.pwd, salt |-> call.salt,
                      t |-> call.t, r |-> call.r, c |-> call.c]
       IN  /\ par' = p
           /\ IF InDomain(p)
              THEN /\ pc' = "absorb" /\ enc' = Encode(p) /\ v' = SpongeInit
              ELSE /\ pc' = "rejected" /\ UNCHANGED <<enc, v>>
    /\ blk' = 0 /\ mat' = <<>>
    /\ row' = 2 /\ prev' = 1 /\ rowa' = 0 /\ step' = 1 /\ window' = 2 /\ gap' = 1 /\ tau' = 0
    /\ idx' = 0
    /\ UNCHANGED <<call, stage, buf>>

ctl == <<row, prev, rowa, step, window, gap, tau, idx>>

AbsorbBlock ==
    /\ pc = "absorb" /\ blk < InputBlocks(par)
    /\ v' = Perm12(Inject(v, InputBlock(enc, blk + 1), 8))
    /\ blk' = blk + 1
    /\ UNCHANGED <<call, pc, stage, buf, par, enc, mat, ctl>>

FirstRows ==
    /\ pc = "absorb" /\ blk = InputBlocks(par)
    /\ LET a == FillRow0(v, par.c)
           b == FillRow1(a[1], a[2])
       IN  v' = b[1] /\ mat' = <<a[2], b[2]>>
    /\ pc' = "fill"
    /\ UNCHANGED <<call, stage, buf, par, enc, blk, ctl>>

FillNextRow ==
    /\ pc = "fill" /\ row < par.r
    /\ LET a == FillRow(v, mat[prev + 1], mat[rowa + 1])
           next == (rowa + step) % window
       IN  /\ v' = a[1]
           /\ mat' = Append([mat EXCEPT ![rowa + 1] = a[3]], a[2])
           /\ rowa' = next /\ prev' = row /\ row' = row + 1
           /\ IF next = 0
              THEN step' = window + gap /\ window' = 2 * window /\ gap' = -gap
              ELSE UNCHANGED <<step, window, gap>>
    /\ UNCHANGED <<call, pc, stage, buf, par, enc, blk, tau, idx>>

Filled ==
    /\ pc = "fill" /\ row = par.r
    /\ pc' = "pass" /\ row' = 0
    /\ UNCHANGED <<call, stage, buf, par, enc, blk, v, mat, prev, rowa, step, window, gap, tau, idx>>

StartPass ==
    /\ pc = "pass" /\ tau < par.t
    /\ tau' = tau + 1
    /\ step' = IF tau' % 2 = 1 THEN (par.r \div 2) - 1 ELSE -1
    /\ pc' = "wander"
    /\ UNCHANGED <<call, stage, buf, par, enc, blk, v, mat, row, prev, rowa, window, gap, idx>>

WanderNextRow ==
    /\ pc = "wander"
    /\ LET i == NextIndex(par.mod, v, idx)
           ra == SelectRow(v, i, par.r)
           a == WanderRow(v, mat[prev + 1], mat[ra + 1], mat[row + 1], ra = row)
           next == IF row + step < 0 THEN par.r - 1 ELSE (row + step) & (par.r - 1)
       IN  /\ idx' = i
           /\ rowa' = ra
           /\ v' = a[1]
           /\ mat' = [[mat EXCEPT ![row + 1] = a[2]] EXCEPT ![ra + 1] = a[3]]
           /\ prev' = row
           /\ row' = next
           /\ pc' = IF next = 0 THEN "pass" ELSE "wander"
    /\ UNCHANGED <<call, stage, buf, par, enc, blk, step, window, gap, tau>>

WrapUp ==
    /\ pc = "pass" /\ tau = par.t
    /\ v' = Perm12(Inject(v, mat[rowa + 1][1], Rate))
    /\ pc' = "squeeze" /\ buf' = <<>>
    /\ UNCHANGED <<call, stage, par, enc, blk, mat, ctl>>

SqueezeMore ==
    /\ pc = "squeeze" /\ Len(buf) < par.k
    /\ LET b == SqueezeBlock(v)
           n == par.k - Len(buf)
       IN  buf' = buf \o (IF n < 96 THEN SubSeq(b, 1, n) ELSE b)
    /\ v' = Perm12(v)
    /\ UNCHANGED <<call, pc, stage, par, enc, blk, mat, ctl>>

LeaveLyra ==
    /\ pc = "squeeze" /\ Len(buf) = par.k
    /\ pc' = "stage" /\ stage' = stage + 1
    /\ UNCHANGED <<call, buf, lyraVars>>

Return ==
    /\ pc = "stage" /\ stage > Len(Pipeline(call.fn))
    /\ pc' = "done"
    /\ UNCHANGED <<call, stage, buf, lyraVars>>

Next == \/ HashStage \/ EnterLyra \/ AbsorbBlock \/ FirstRows \/ FillNextRow \/ Filled
        \/ StartPass \/ WanderNextRow \/ WrapUp \/ SqueezeMore \/ LeaveLyra \/ Return

(* ----------------------------- invariants ----------------------------- *)
Final == pc \in {"done", "rejected"}
InLyra == pc \in {"absorb", "fill", "pass", "wander", "squeeze"}

\* Only rows that exist are ever read; the matrix never exceeds R rows of C cells.
MatrixSound ==
    InLyra => /\ Len(mat) <= par.r
              /\ pc = "fill" => /\ Len(mat) = row /\ prev = row - 1
                                /\ (row < par.r => rowa < row /\ rowa # prev)
              /\ pc \in {"pass", "wander", "squeeze"} =>
                    Len(mat) = par.r /\ row < par.r /\ prev < par.r /\ rowa < par.r
\* Results have the promised size
SizeSound == pc = "done" => Len(buf) = IF OneArg(call.fn) THEN 32 ELSE call.k
\* Plain Lyra2 always picks rows from sponge word 0
IndexSound == InLyra => idx \in 0..15 /\ (~par.mod => idx = 0)

(* --------------------- refinement of the skeleton --------------------- *)
Ctl == INSTANCE Lyra2Control WITH
         cpc <- CASE pc \in {"fill", "pass", "wander"} -> pc
                  [] pc \in {"absorb"} -> "fill" [] OTHER -> "done",
         rows <- par.r, passes <- par.t
=============================================================================
