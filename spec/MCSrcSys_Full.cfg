SPECIFICATION Spec
VIEW View
CONSTANTS
  Places = {"p1", "p2"}
  Pages <- MCPages
  Colls = {"a"}
  MaxCalls = 5
  MaxKeys = 3
  CacheBy = "content"
INVARIANTS Current Traced Grows
CHECK_DEADLOCK FALSE
