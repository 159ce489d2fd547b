SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 K = 2
 Shared = FALSE
 Whole = TRUE
INVARIANT Own
CHECK_DEADLOCK FALSE
