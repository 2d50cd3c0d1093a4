SPECIFICATION GenSpec

CONSTANTS
  Pick <- One
  Colls = {"a", "b"}
  Templates <- MCTemplates
  MaxKeys = 14
  MaxCalls = 16
  Undo = FALSE
INVARIANTS Faithful Views
CHECK_DEADLOCK FALSE
