SPECIFICATION Spec
INVARIANTS Known Safe
CHECK_DEADLOCK TRUE
