SPECIFICATION Spec
CONSTANTS K = 4
          Acts = {"add", "json"}
          Universe = "tiny"
          Skips = {FALSE}
          Root <- NoRoot
          Ending = "orders"
INVARIANTS Held Flag LastIsLargest Tables Faithful Header Contents NoTrace Answers
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
