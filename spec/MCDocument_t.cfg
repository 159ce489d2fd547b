SPECIFICATION Spec
CONSTANT Rich = TRUE
INVARIANTS Right Filled
PROPERTY Ends
CHECK_DEADLOCK FALSE
