SPECIFICATION Spec
CONSTANTS MinR = 3  MaxR = 40  MaxT = 3
VIEW View
INVARIANTS TypeOK FillSound AllFilled WindowFair PassSound PassCovers InMatrix
CHECK_DEADLOCK TRUE
PROPERTY Terminates
