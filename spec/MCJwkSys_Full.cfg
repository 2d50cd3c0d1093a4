SPECIFICATION Spec
VIEW View
CONSTANTS

  Mats <- SmallMats
  Attrs <- MCAttrs
  MaxObj = 3
  MaxDoc = 2
  MaxCalls = 5
  KeepOld = FALSE
  Careless = FALSE
INVARIANTS Unmixed RoundTrip NothingPrivate PublicDocs CopyIsKey Equivalence Determined
CHECK_DEADLOCK FALSE
