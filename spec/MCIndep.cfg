SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 K = 2
 Shared = FALSE
 Whole = FALSE
INVARIANT Own
PROPERTY Ends
CHECK_DEADLOCK FALSE
