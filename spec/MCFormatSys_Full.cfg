CONSTANT Scenarios <- Full
SPECIFICATION Spec
INVARIANT RoundTrip Noticed SenderOk
CHECK_DEADLOCK FALSE
