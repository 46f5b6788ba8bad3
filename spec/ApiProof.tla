------------------------------ MODULE ApiProof ------------------------------
(***************************************************************************)
(* The library as it works inside (a matrix of its own for every call,     *)
(* written step by step), for ANY number of threads, ANY set of calls, ANY *)
(* number of them in ANY interleaving, and whatever one step does: it      *)
(* refines ApiPure.  Proved with TLAPS; ApiImpl is the instance TLC        *)
(* checks, with the designs that must fail.                                *)
(***************************************************************************)
EXTENDS Naturals, TLAPS
CONSTANTS Threads, Calls, Idle, NoOutcome,
          Zero,            \* a matrix of zeros
          Do(_, _, _),     \* call, number of the step, matrix: the matrix after the step
          Length(_),       \* how many steps a call takes (to its value or its panic)
          Result(_, _)     \* call, matrix at the end: value or panic
\* the matrix of a call after k steps, when nothing else runs
CONSTANT Run(_, _)
ASSUME RunZero == \A c \in Calls : Run(c, 0) = Zero
ASSUME RunNext == \A c \in Calls, k \in Nat : Run(c, k + 1) = Do(c, k, Run(c, k))
ASSUME Lengths == \A c \in Calls : Length(c) \in Nat
ASSUME IdleIsNone == Idle \notin Calls
Alone(c) == Result(c, Run(c, Length(c)))

VARIABLES busy, last, mem, at, setting
vars == <<busy, last, mem, at, setting>>

P == INSTANCE ApiPure WITH Outcome <- Alone

Init == /\ busy = [t \in Threads |-> Idle] /\ last = [t \in Threads |-> NoOutcome]
        /\ mem = [t \in Threads |-> Zero] /\ at = [t \in Threads |-> 0]
        /\ setting \in BOOLEAN
Enter(t, c) == /\ busy[t] = Idle
               /\ busy' = [busy EXCEPT ![t] = c] /\ last' = [last EXCEPT ![t] = NoOutcome]
               /\ mem' = [mem EXCEPT ![t] = Zero] /\ at' = [at EXCEPT ![t] = 0]
               /\ UNCHANGED setting
Work(t) == /\ busy[t] # Idle /\ at[t] < Length(busy[t])
           /\ mem' = [mem EXCEPT ![t] = Do(busy[t], at[t], mem[t])]
           /\ at' = [at EXCEPT ![t] = at[t] + 1]
           /\ UNCHANGED <<busy, last, setting>>
Leave(t) == /\ busy[t] # Idle /\ at[t] = Length(busy[t])
            /\ last' = [last EXCEPT ![t] = Result(busy[t], mem[t])]
            /\ busy' = [busy EXCEPT ![t] = Idle]
            /\ UNCHANGED <<mem, at, setting>>
Environment == setting' = ~setting /\ UNCHANGED <<busy, last, mem, at>>
Next == (\E t \in Threads : (\E c \in Calls : Enter(t, c)) \/ Work(t) \/ Leave(t)) \/ Environment
Spec == Init /\ [][Next]_vars

PStep == \E t \in Threads : (\E c \in Calls : P!Begin(t, c)) \/ (\E o \in {last'[t]} : P!End(t, o))
PSpec == P!PInit /\ [][PStep]_<<busy, last>>

Inv == /\ busy \in [Threads -> Calls \cup {Idle}]
       /\ at \in [Threads -> Nat]
       /\ DOMAIN mem = Threads /\ mem = [t \in Threads |-> mem[t]]
       /\ last = [t \in Threads |-> last[t]]
       /\ \A t \in Threads : busy[t] # Idle => mem[t] = Run(busy[t], at[t])

THEOREM InvInit == Init => Inv
  BY DEF Init, Inv

THEOREM InvNext == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE \E t \in Threads, c \in Calls : Enter(t, c)
  <2> PICK t \in Threads, c \in Calls : Enter(t, c)
    BY <1>1
  <2>1. \A u \in Threads : u # t => busy'[u] = busy[u] /\ mem'[u] = mem[u] /\ at'[u] = at[u]
    BY DEF Inv, Enter
  <2>2. busy'[t] = c /\ mem'[t] = Zero /\ at'[t] = 0
    BY DEF Inv, Enter
  <2>3. \A u \in Threads : busy'[u] # Idle => mem'[u] = Run(busy'[u], at'[u])
    BY <2>1, <2>2, RunZero DEF Inv
  <2> QED BY <2>3 DEF Inv, Enter
<1>2. CASE \E t \in Threads : Work(t)
  <2> PICK t \in Threads : Work(t)
    BY <1>2
  <2>1. busy[t] \in Calls /\ at[t] \in Nat
    BY DEF Inv, Work
  <2>2. mem'[t] = Do(busy[t], at[t], mem[t]) /\ at'[t] = at[t] + 1 /\ busy' = busy
    BY DEF Inv, Work
  <2>3. mem'[t] = Run(busy'[t], at'[t])
    BY <2>1, <2>2, RunNext DEF Inv, Work
  <2>4. \A u \in Threads : u # t => mem'[u] = mem[u] /\ at'[u] = at[u]
    BY DEF Inv, Work
  <2>5. \A u \in Threads : busy'[u] # Idle => mem'[u] = Run(busy'[u], at'[u])
    BY <2>2, <2>3, <2>4 DEF Inv
  <2> QED BY <2>1, <2>5 DEF Inv, Work
<1>3. CASE \E t \in Threads : Leave(t)
  <2> PICK t \in Threads : Leave(t)
    BY <1>3
  <2>1. \A u \in Threads : busy'[u] # Idle => busy'[u] = busy[u]
    BY DEF Inv, Leave
  <2> QED BY <2>1 DEF Inv, Leave
<1>4. CASE UNCHANGED <<busy, last, mem, at>>
  BY <1>4 DEF Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Next, Environment, vars

THEOREM StepRefines == Inv /\ [Next]_vars => [PStep]_<<busy, last>>
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE [PStep]_<<busy, last>>
  OBVIOUS
<1>1. CASE \E t \in Threads, c \in Calls : Enter(t, c)
  BY <1>1 DEF Enter, PStep, P!Begin
<1>2. CASE \E t \in Threads : Work(t)
  BY <1>2 DEF Work
<1>3. CASE \E t \in Threads : Leave(t)
  <2> PICK t \in Threads : Leave(t)
    BY <1>3
  <2>1. last'[t] = Result(busy[t], mem[t])
    BY DEF Inv, Leave
  <2>2. last'[t] = Alone(busy[t])
    BY <2>1 DEF Inv, Leave, Alone
  <2>3. P!End(t, last'[t])
    BY <2>1, <2>2 DEF Leave, P!End
  <2> QED BY <2>3 DEF PStep
<1>4. CASE UNCHANGED <<busy, last>>
  BY <1>4
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Next, Environment, vars

THEOREM Spec => PSpec
<1>1. Init => P!PInit
  BY DEF Init, P!PInit
<1>2. Spec => []Inv
  BY InvInit, InvNext, PTL DEF Spec
<1>3. Spec => [][PStep]_<<busy, last>>
  BY <1>2, StepRefines, PTL DEF Spec
<1> QED BY <1>1, <1>3, PTL DEF Spec, PSpec
=============================================================================
