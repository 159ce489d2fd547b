SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 K = 2
 Shared = TRUE
 Whole = FALSE
INVARIANT Own
CHECK_DEADLOCK FALSE
