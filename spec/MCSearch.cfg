SPECIFICATION Spec
CONSTANTS N = 6
          V = 3
INVARIANTS Bracket Right
PROPERTY Terminates
CHECK_DEADLOCK FALSE
