SPECIFICATION BeginSpec
CONSTANTS
  Rsas = {"R1", "R2", "R3", "R4"}
  Secs = {"H1", "H2"}
  Names = {"a", "b", "y", "z"}
  Msgs = {"m1", "m2"}
  MaxCalls = 18
  MaxToks = 6
  Fault = ""
  Pick <- One
INVARIANTS NothingPrivate Authentic Secret Opens Verifies
CHECK_DEADLOCK FALSE
