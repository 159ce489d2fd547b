SPECIFICATION Spec
CONSTANTS K = 5
          Acts = {"add", "json"}
          Universe = "ties"
          Skips = {FALSE}
          Root <- NoRoot
          Ending = "orders"
INVARIANTS Held Flag LastIsLargest Tables Faithful Header Contents NoTrace Answers
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
