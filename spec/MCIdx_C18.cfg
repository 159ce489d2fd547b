SPECIFICATION Spec
CONSTANTS NS = 2
          Lines = {0, 1}
          Cols = {0, 2, 5}
          Pool = {1, 2, 3, 4, 6}
          K = 2
          Kinds = {"each"}
INVARIANTS Right Governs Decodes
CHECK_DEADLOCK FALSE
