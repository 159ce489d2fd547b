SPECIFICATION Spec
CONSTANTS Roots <- ManyRoots
          Urls <- ManyUrls
          Pool = {"a.js", "/a.js", "x/../b.js", "../c.js", "http://o.org/d.js", "//p.org/e.js?q#f", "a", ""}
          N = 1
          K = 0
          Ending = "resolve"
INVARIANTS Memo CacheRight AsSpelled AsReported Resolved AbsoluteKept
CHECK_DEADLOCK FALSE
