SPECIFICATION Spec
CONSTANT MaxLen = 70
VIEW TView
INVARIANTS Injective WholeBlocks
CHECK_DEADLOCK TRUE
