SPECIFICATION Spec
CONSTANTS Members = {"a", "b", "c"}
          K = 5
INVARIANTS Member Order Index Size Indices NoDup
CHECK_DEADLOCK FALSE
