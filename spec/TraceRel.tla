------------------------------ MODULE TraceRel ------------------------------
(***************************************************************************)
(* Relational properties over recorded calls.  Each log line is a group:   *)
(*   [rel |-> "same" | "distinct", runs |-> << [arg, outcome, out] ... >>] *)
(*   same      every run of the group has the same outcome (C14: sum(x)    *)
(*             and the general call; C15: one call under all builds)       *)
(*   distinct  every run returned a value of the right size and runs with  *)
(*             different arguments returned different values (C02, C12)    *)
(* One behaviour per group, one action per run; the machine remembers what *)
(* it has seen.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES g, i, args, outs
vars == <<g, i, args, outs>>
Run == Log[g].runs[i]

Init == g \in 1..Len(Log) /\ i = 0 /\ args = {} /\ outs = {}
More == i < Len(Log[g].runs)
Step == /\ More
        /\ i' = i + 1 /\ g' = g
        /\ args' = args \cup {Log[g].runs[i+1].arg}
        /\ outs' = outs \cup {<<Log[g].runs[i+1].outcome, Log[g].runs[i+1].out>>}
Next == Step \/ (~More /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
TView == <<g, i>>

Same == Log[g].rel = "same" => Cardinality(outs) <= 1
\* an injective function of the arguments so far
Distinct == Log[g].rel = "distinct" => Cardinality(outs) = Cardinality(args)
Total == Log[g].rel = "distinct" /\ i > 0 => Run.outcome = "ok" /\ Run.size = Run.want
Explain == [n |-> g, pc |-> IF i = 0 THEN 0 ELSE i, spec |-> Log[g].rel,
            code |-> IF i = 0 THEN "" ELSE Run.outcome]
=============================================================================
