SPECIFICATION Spec
VIEW View
CONSTANTS
  Objects <- SmallObjects
  KeyLists <- SmallKeyLists
  Headers <- SmallHeaders
  Payloads = {"a"}
  MaxObj = 1
  MaxTok = 2
  MaxCalls = 4
  Honest <- MCHonest
INVARIANTS Authenticity PayloadOfToken NoneOnlyIfAllowed PinsHold KidHolds FirstFitting RoundTrip DocAuthentic HistoryFree
CHECK_DEADLOCK FALSE
