SPECIFICATION Spec
CONSTANT Rich = TRUE
INVARIANTS Agree Kind Carried
PROPERTY Ends
CHECK_DEADLOCK FALSE
