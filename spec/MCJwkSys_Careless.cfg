SPECIFICATION Spec
VIEW View
CONSTANTS

  Mats <- SmallMats
  Attrs <- SmallAttrs
  MaxObj = 2
  MaxDoc = 2
  MaxCalls = 4
  KeepOld = FALSE
  Careless = TRUE
INVARIANTS Unmixed RoundTrip NothingPrivate PublicDocs CopyIsKey Equivalence Determined
CHECK_DEADLOCK FALSE
