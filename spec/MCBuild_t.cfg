SPECIFICATION Spec
CONSTANTS NS = 4
          Workers = {w1, w2}
          Offs <- FourOffs
          Faults = {"ok", "url"}
          Racy = FALSE
INVARIANTS Told Outcome Complete Once
PROPERTY Joins
CHECK_DEADLOCK FALSE
