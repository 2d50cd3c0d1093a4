SPECIFICATION Spec
CONSTANTS
  Rsas = {"R1"}
  Secs = {"H1"}
  Names = {"a"}
  Msgs = {"m1"}
  MaxCalls = 2
  MaxToks = 1
  Fault = "export"
VIEW View
INVARIANTS NothingPrivate Authentic Secret Opens Verifies
CHECK_DEADLOCK FALSE
