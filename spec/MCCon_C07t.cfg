SPECIFICATION Spec
CONSTANTS N = 4
          Universe = "gen"
          K = 0
          Kinds = {"orig"}
          Ending = "none"
INVARIANTS Decodes Right Parsed Bucketed SpansKnown
CHECK_DEADLOCK FALSE
