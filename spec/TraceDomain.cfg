SPECIFICATION TSpec
VIEW TView
INVARIANTS AcceptConforms RejectConforms InMatrix
CHECK_DEADLOCK TRUE
ALIAS Explain
