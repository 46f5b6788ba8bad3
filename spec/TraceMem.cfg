SPECIFICATION Spec
CONSTANTS
  Factor = 8
  Base = 65536
INVARIANTS Proportionate Temporary
CHECK_DEADLOCK TRUE
ALIAS Explain
