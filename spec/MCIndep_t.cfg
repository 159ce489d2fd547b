SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 K = 3
 Shared = FALSE
 Whole = FALSE
INVARIANT Own
CHECK_DEADLOCK FALSE
