SPECIFICATION MSpec
INVARIANTS RoundTrip Prefix Refused Local Export
CHECK_DEADLOCK FALSE
