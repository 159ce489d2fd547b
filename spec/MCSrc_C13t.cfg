SPECIFICATION Spec
CONSTANTS Roots <- ManyRoots
          Urls <- ManyUrls
          Pool = {"a.js", "/a.js", "./x/../b.js", "../../c.js", "http://o.org/x/../d.js", "//p.org/e.js?q#f", "a", "", ".", "..", "/", "d/", "a.js?x=1", "/b#/c", "p0/p1.js", "../lib/a.js"}
          N = 2
          K = 0
          Ending = "resolve"
INVARIANTS Memo CacheRight AsSpelled AsReported Resolved AbsoluteKept
CHECK_DEADLOCK FALSE
