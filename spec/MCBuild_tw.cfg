SPECIFICATION Spec
CONSTANTS NS = 3
          Workers = {w1, w2, w3}
          Offs <- ThreeOffs
          Faults = {"ok", "url"}
          Racy = FALSE
INVARIANTS Told Outcome Complete Once
PROPERTY Joins
CHECK_DEADLOCK FALSE
