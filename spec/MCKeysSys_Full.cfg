SPECIFICATION Spec
VIEW Seen
CONSTANTS

  Colls = {"a", "b"}
  Templates <- MCTemplates
  MaxKeys = 5
  MaxCalls = 5
  Undo = FALSE
INVARIANTS Faithful Views
CHECK_DEADLOCK FALSE
