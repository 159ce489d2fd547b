SPECIFICATION Spec
CONSTANTS NS = 3
          Lines = {0, 1}
          Cols = {0, 3}
          Pool = {1, 2, 3, 4, 6}
          K = 0
          Kinds = {"content"}
INVARIANTS Right Governs Decodes
CHECK_DEADLOCK FALSE
