CONSTANT Scenarios <- Quick
SPECIFICATION Spec
INVARIANT RoundTrip Noticed SenderOk
CHECK_DEADLOCK FALSE
