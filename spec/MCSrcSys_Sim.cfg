SPECIFICATION GenSpec
CONSTANTS
  Places = {"p1", "p2", "p3"}
  Pages <- MCPages
  Colls = {"a", "b"}
  MaxCalls = 18
  MaxKeys = 40
  CacheBy = "content"
  Pick <- One
INVARIANTS Current Traced Grows
CHECK_DEADLOCK FALSE
