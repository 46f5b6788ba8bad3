SPECIFICATION Spec
VIEW TView
INVARIANTS Same Distinct Total
CHECK_DEADLOCK TRUE
ALIAS Explain
