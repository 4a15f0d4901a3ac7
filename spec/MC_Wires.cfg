SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT Total
INVARIANT Export
CHECK_DEADLOCK FALSE
