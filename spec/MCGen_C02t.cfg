SPECIFICATION Spec
CONSTANTS K = 5
          Acts = {"add"}
          Universe = "distinct"
          Skips = {FALSE}
          Root <- SomeRoot
          Ending = "consumers"
INVARIANTS Held Flag LastIsLargest Tables Faithful Header Contents NoTrace Answers
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
