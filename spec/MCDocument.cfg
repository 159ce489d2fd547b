SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANTS Right Filled
PROPERTY Ends
CHECK_DEADLOCK FALSE
