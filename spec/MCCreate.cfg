SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANTS Agree Kind Carried
PROPERTY Ends
CHECK_DEADLOCK FALSE
