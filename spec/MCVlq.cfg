SPECIFICATION Spec
CONSTANTS Span = 5000
          Reach = 40
INVARIANTS Specified RoundTrip Minimal InAlphabet Continuation
PROPERTY Terminates
CHECK_DEADLOCK FALSE
