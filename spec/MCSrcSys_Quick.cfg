SPECIFICATION Spec
VIEW View
CONSTANTS
  Places = {"p1", "p2"}
  Pages <- SmallPages
  Colls = {"a"}
  MaxCalls = 4
  MaxKeys = 2
  CacheBy = "content"
INVARIANTS Current Traced Grows
CHECK_DEADLOCK FALSE
