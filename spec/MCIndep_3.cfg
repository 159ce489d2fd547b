SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 K = 1
 Shared = FALSE
 Whole = FALSE
INVARIANT Own
PROPERTY Ends
CHECK_DEADLOCK FALSE
