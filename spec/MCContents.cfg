SPECIFICATION Spec
CONSTANTS MaxSources = 2
          MaxContents = 3
          Texts = {"", "x"}
          K = 0
INVARIANT Right
CHECK_DEADLOCK FALSE
