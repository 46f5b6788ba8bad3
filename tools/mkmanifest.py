#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VAL = ("Every recorded call is a behaviour of the TLA+ machine LyraMachine (one action per absorbed block, row, pass, "
       "squeezed block, hash stage); TLC compares the recorded outcome with the one the machine arrives at. ")
SCR = ("Sampled, not exhaustive, over inputs: plans generated by TLC, seeded samples, and calls nominated by a fast screen; "
       "trusts TLC, the harness's recording, and that the screen's reference agrees with the specification where it stays silent.")
T = {
 "C01": ("TLA+/TLC: Lyra2 state machine, trace validation of recorded calls; control skeleton model-checked",
         VAL + "The control skeleton it refines is checked exhaustively for all R, T in a range. " + SCR),
 "C02": ("TLA+/TLC: padding injectivity model-checked; recorded related calls checked for distinct keys and validated",
         "Encode is checked injective on every tuple of a finite space (with negative variants that must fail) and proved injective for any lengths (TLAPS); recorded keys of related calls must be distinct and equal to the machine's. " + SCR),
 "C03": ("TLA+/TLC: trace validation of recorded calls over key lengths", VAL + SCR),
 "C04": ("TLA+/TLC: control machine with liveness, domain predicate; trace validation of outcomes at the domain's edges",
         "Termination and index safety are model-checked for every R, T in a range and every choice of revisited rows, and the schedule by an inductive invariant over unbounded integers (Apalache); recorded outcomes (value, panic, hang, abort) must agree with the machine. " + SCR),
 "C05": ("TLA+/TLC: pipeline machine with BLAKE, Keccak, Lyra2, Skein, Groestl in TLA+; trace validation", VAL + SCR),
 "C06": ("TLA+/TLC: pipeline machine with all seven stages in TLA+; trace validation", VAL + SCR),
 "C07": ("TLA+/TLC: pipeline machine with modified Lyra2 in TLA+; trace validation", VAL + SCR),
 "C08": ("TLA+/TLC: pipeline machine; trace validation", VAL + SCR),
 "C09": ("TLA+/TLC: API machine refinement; recorded call histories validated against it",
         "ApiImpl (fresh matrix per call) refines ApiPure for every history up to a bound, and by proof (TLAPS) for any; shared-scratch variants do not; recorded histories (class pairs enumerated by TLC, long random walks) must be behaviours of ApiPure whose outcome table was recorded in fresh processes. Sampled histories."),
 "C10": ("TLA+/TLC: API machine refinement over all interleavings; recorded concurrent runs validated against it",
         "All interleavings of the model for few threads, and a proof (TLAPS) for any; the real code is observed on the schedules that 8-32 threads on this machine produce, and on thousands of forked processes whose threads make the first call together, so schedules are sampled."),
 "C11": ("TLA+/TLC: CubeHash and BMW in TLA+, checked on published vectors; trace validation through guarded hooks", VAL + SCR),
 "C12": ("TLA+/TLC: padding injectivity model-checked; recorded digests of related inputs checked total and distinct",
         "Relational: no value oracle is involved; every recorded digest has 32 bytes and digests of different inputs differ, within families of related inputs from empty to 128 MiB. " + SCR),
 "C13": ("TLA+/TLC: control machine model-checked (schedule, windows, passes); trace validation over R and T",
         "Schedule invariants hold for every R, T in a range (filling up to 65535 rows, passes for every R up to 2600, thorough 20000), and an inductive invariant of the schedule over unbounded integers is checked symbolically with Apalache (ScheduleInd: every window of the filling, passes for every multiple of 4); recorded keys must be those of the machine that refines it. " + SCR),
 "C14": ("TLA+/TLC: relational trace validation of pairs of calls", "Recorded outcomes of sum(x) and the general call must be equal, for every length 0..899 and sampled contents. " + SCR),
 "C15": ("TLA+/TLC: relational trace validation of one call under four builds",
         "The same calls are recorded under release, optimised with overflow checks and debug assertions, dev, and size-optimised builds, and must have equal outcomes. " + SCR),
 "C16": ("TLA+/TLC: modified Lyra2 state machine, trace validation through a guarded hook", VAL + SCR),
 "C17": ("TLA+/TLC: memory model over unbounded histories; recorded memory use of histories validated against its rule",
         "Memory.tla is checked for histories of any length (designs that give back or keep one buffer hold, leaking, caching and copying ones must fail); the recorded peak of every call and the recorded rest after it must obey the same rule. Heap only (a counting global allocator); calls and histories are sampled from plans enumerated by TLC and from seeded generators."),
 "C18": ("TLA+/TLC: API machine with an adversarial environment; recorded system calls and outcomes in different surroundings validated",
         "ApiImpl leaves the world unchanged and refines ApiPure while the environment changes its settings at any time; system calls recorded by strace between the markers of a call must be internal ones, and outcomes of one call in eight surroundings (odd heap, set variables, other clock, one processor, fixed addresses) must be equal. Calls and surroundings are sampled."),
 "C19": ("TLA+/TLC: machine model with byte order and index width; outcomes recorded on emulated machines validated",
         "Machines.tla is checked exhaustively at small scale (cutting to an index first, native byte order and a cut length must fail); the same calls are run as 32-bit WebAssembly and as s390x (thorough: powerpc) code under Miri, and their outcomes judged against this machine's and against the full machine of the specification. The targets are emulated; calls are enumerated by TLC plans and sampled by seeded generators."),
 "C20": ("TLA+/TLC: access model of the matrix, word by word; recorded runs of the code under memory monitors validated",
         "Access.tla refines the control machine to single words and is checked exhaustively for small matrices and every choice of revisited rows, and proved for any (TLAPS) (unchecked inputs, an unmasked row, a column off by one and revisiting the row being filled must fail); runs of the real code under AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri are recorded as outcomes and monitor reports, and no report is a behaviour of the model. Each monitor must first see a deliberate misuse. Inputs and schedules are sampled."),
}
m = dict(version=1, setup_cmd="bash tools/setup.sh",
  hooks=dict(guard="cfg(lyra2_verif)", enable="RUSTFLAGS='--cfg lyra2_verif' (set by tools/vlib.py when it builds harness/)",
             source_commits=["01982a9"]),
  checks=[dict(property=p, quick_cmd="python3 tools/check.py %s --tier quick" % p,
               thorough_cmd="python3 tools/check.py %s --tier thorough" % p,
               technique=t, level="model_checking", level_note=n) for p, (t, n) in sorted(T.items())],
  not_applicable=[],
  notes="Specification in spec/, harness in harness/, runner in tools/. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
