SPECIFICATION Spec
VIEW View
CONSTANTS
  Objects <- SmallObjects
  KeyLists <- SmallKeyLists
  Headers <- SmallHeaders
  Mats <- SmallMats
  Payloads = {"a"}
  MaxObj = 1
  MaxTok = 3
  MaxCalls = 4
  Honest <- MCHonest
  Reuse = FALSE
INVARIANTS Integrity SharedKeyAuthentic OnCurve FreshSecrets Secrecy KidHolds FirstFitting RoundTrip HistoryFree
CHECK_DEADLOCK FALSE
