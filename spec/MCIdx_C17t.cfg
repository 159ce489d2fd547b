SPECIFICATION Spec
CONSTANTS NS = 3
          Lines = {0, 1}
          Cols = {0, 2}
          Pool = {1, 2, 3, 4, 6}
          K = 0
          Kinds = {"genpos", "allpos"}
INVARIANTS Right Governs Decodes
CHECK_DEADLOCK FALSE
