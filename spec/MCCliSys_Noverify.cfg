SPECIFICATION Spec
CONSTANTS
  Rsas = {"R1", "R2"}
  Secs = {"H1"}
  Names = {"a", "b"}
  Msgs = {"m1"}
  MaxCalls = 4
  MaxToks = 1
  Fault = "noverify"
VIEW View
INVARIANTS NothingPrivate Authentic Secret Opens Verifies
CHECK_DEADLOCK FALSE
