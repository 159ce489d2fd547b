SPECIFICATION Spec
CONSTANTS K = 4
          Acts = {"add", "json", "content"}
          Universe = "tiny"
          Skips = {FALSE}
          Root <- NoRoot
          Ending = "json"
INVARIANTS Held Flag LastIsLargest Tables Faithful Header Contents NoTrace Answers
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
