SPECIFICATION Spec
CONSTANTS Roots <- FewRoots
          Urls <- FewUrls
          Pool = {"a.js", "lib/a.js", "/r/a.js"}
          N = 2
          K = 2
          Ending = "lookups"
INVARIANTS Memo CacheRight AsSpelled AsReported Resolved AbsoluteKept
CHECK_DEADLOCK FALSE
