SPECIFICATION Spec
CONSTANTS N = 3
          Universe = "small"
          K = 4
          Kinds = {"spans"}
          Ending = "none"
INVARIANTS Decodes Right Parsed Bucketed SpansKnown
CHECK_DEADLOCK FALSE
