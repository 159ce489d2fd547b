SPECIFICATION Spec
CONSTANTS NS = 2
          Workers = {w1, w2}
          Offs <- ThreeOffs
          Faults = {"ok", "url", "version", "embedded"}
          Racy = FALSE
INVARIANTS Told Outcome Complete Once
PROPERTY Joins
CHECK_DEADLOCK FALSE
