SPECIFICATION Spec
CONSTANTS Roots <- ManyRoots
          Urls <- ManyUrls
          Pool = {"a.js", "/a.js", "r/a.js", "lib/a.js", "../b.js", "http://m.org/d/a.js", "d/a.js"}
          N = 2
          K = 0
          Ending = "lookups"
INVARIANTS Memo CacheRight AsSpelled AsReported Resolved AbsoluteKept
CHECK_DEADLOCK FALSE
