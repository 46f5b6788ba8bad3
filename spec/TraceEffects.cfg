SPECIFICATION Spec
INVARIANTS NoEffect
CHECK_DEADLOCK TRUE
ALIAS Explain
