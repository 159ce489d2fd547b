SPECIFICATION Spec
CONSTANTS K = 3
          Acts = {"add"}
          Universe = "wide"
          Skips = {FALSE}
          Root <- NoRoot
          Ending = "json"
INVARIANTS Held Flag LastIsLargest Tables Faithful Header Contents NoTrace Answers
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
