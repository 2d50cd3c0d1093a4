SPECIFICATION Spec
CONSTANTS
  Rsas = {"R1"}
  Secs = {"H1"}
  Names = {"a"}
  Msgs = {"m1"}
  MaxCalls = 3
  MaxToks = 1
  Fault = "lost"
VIEW View
INVARIANTS NothingPrivate Authentic Secret Opens Verifies
CHECK_DEADLOCK FALSE
