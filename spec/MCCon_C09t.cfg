SPECIFICATION Spec
CONSTANTS N = 3
          Universe = "orig"
          K = 0
          Kinds = {"allpos"}
          Ending = "none"
INVARIANTS Decodes Right Parsed Bucketed SpansKnown
CHECK_DEADLOCK FALSE
