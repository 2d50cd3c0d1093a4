SPECIFICATION Spec
VIEW Seen
CONSTANTS

  Colls = {"a", "b"}
  Templates <- SmallTemplates
  MaxKeys = 4
  MaxCalls = 4
  Undo = TRUE
INVARIANTS Faithful Views
CHECK_DEADLOCK FALSE
