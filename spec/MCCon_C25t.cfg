SPECIFICATION Spec
CONSTANTS N = 3
          Universe = "small"
          K = 0
          Kinds = {"bad", "orig", "allpos", "genpos"}
          Ending = "broken"
INVARIANTS Decodes Right Parsed Bucketed SpansKnown
CHECK_DEADLOCK FALSE
