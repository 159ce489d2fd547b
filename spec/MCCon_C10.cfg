SPECIFICATION Spec
CONSTANTS N = 3
          Universe = "small"
          K = 2
          Kinds = {"orig", "each", "spans"}
          Ending = "none"
INVARIANTS Decodes Right Parsed Bucketed SpansKnown
CHECK_DEADLOCK FALSE
