SPECIFICATION TSpec
VIEW TView
INVARIANTS ValueConforms RejectConforms MatrixSound SizeSound IndexSound
PROPERTY Refines
CHECK_DEADLOCK TRUE
ALIAS Explain
