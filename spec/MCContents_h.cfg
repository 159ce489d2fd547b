SPECIFICATION Spec
CONSTANTS MaxSources = 2
          MaxContents = 2
          Texts = {"", "x"}
          K = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
