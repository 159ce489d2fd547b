SPECIFICATION Spec
CONSTANTS MaxSources = 3
          MaxContents = 4
          Texts = {"", "x", "null"}
          K = 0
INVARIANT Right
CHECK_DEADLOCK FALSE
