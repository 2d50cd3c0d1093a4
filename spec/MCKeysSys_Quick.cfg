SPECIFICATION Spec
VIEW Seen
CONSTANTS

  Colls = {"a", "b"}
  Templates <- SmallTemplates
  MaxKeys = 4
  MaxCalls = 5
  Undo = FALSE
INVARIANTS Faithful Views
CHECK_DEADLOCK FALSE
