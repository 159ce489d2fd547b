SPECIFICATION Spec
CONSTANTS N = 2
          Universe = "small"
          K = 0
          Kinds = {"bad", "orig"}
          Ending = "broken"
INVARIANTS Decodes Right Parsed Bucketed SpansKnown
CHECK_DEADLOCK FALSE
