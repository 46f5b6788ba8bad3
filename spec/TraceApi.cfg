SPECIFICATION Spec
VIEW TView
INVARIANTS NextEventAllowed
CHECK_DEADLOCK TRUE
ALIAS Explain
