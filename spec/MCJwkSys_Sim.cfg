SPECIFICATION GenSpec

CONSTANTS
  Pick <- One
  Mats <- MCMats
  Attrs <- MCAttrs
  MaxObj = 5
  MaxDoc = 3
  MaxCalls = 16
  KeepOld = FALSE
  Careless = FALSE
INVARIANTS Unmixed RoundTrip NothingPrivate PublicDocs CopyIsKey Equivalence Determined
CHECK_DEADLOCK FALSE
