SPECIFICATION Spec
CONSTANTS N = 4
          Universe = "small"
          K = 3
          Kinds = {"orig", "each", "spans"}
          Ending = "none"
INVARIANTS Decodes Right Parsed Bucketed SpansKnown
CHECK_DEADLOCK FALSE
