SPECIFICATION Spec
CONSTANTS K = 4
          Acts = {"add", "json", "bad"}
          Universe = "tiny"
          Skips = {TRUE, FALSE}
          Root <- SomeRoot
          Ending = "json"
INVARIANTS Held Flag LastIsLargest Tables Faithful Header Contents NoTrace Answers
PROPERTY Repeatable
CHECK_DEADLOCK FALSE
