SPECIFICATION Spec
CONSTANTS K = 3
          Acts = {"add"}
          Universe = "distinct"
          Skips = {FALSE}
          Root <- NoRoot
          Ending = "consumers"
INVARIANTS Held Flag LastIsLargest Tables Faithful Header Contents NoTrace Answers
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
