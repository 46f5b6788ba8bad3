SPECIFICATION TSpec
INVARIANTS AllPassesMade NoRefusal
CHECK_DEADLOCK TRUE
ALIAS Explain
