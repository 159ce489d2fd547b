SPECIFICATION Spec
CONSTANTS N = 2
          Universe = "small"
          K = 3
          Kinds = {"spans", "bad", "content"}
          Ending = "fresh"
INVARIANTS Decodes Right Parsed Bucketed SpansKnown
CHECK_DEADLOCK FALSE
