SPECIFICATION Spec
CONSTANTS K = 2
          Acts = {"add"}
          Universe = "wide"
          Skips = {FALSE}
          Root <- NoRoot
          Ending = "list"
INVARIANTS Held Flag LastIsLargest Tables Faithful Header Contents NoTrace Answers
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
