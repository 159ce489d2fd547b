SPECIFICATION Spec
CONSTANTS Names = {"a", "b", ".", ".."}
          LenA = 1
          LenB = 1
          Kinds = {"abs", "scheme", "path", "rel"}
          Tails = TRUE
INVARIANTS JoinLeads JoinKeepsTail JoinNormal NormalLeads NoDots Idempotent RelLeads RelJoins ForeignKept Spelling
CHECK_DEADLOCK FALSE
