SPECIFICATION MSpec
INVARIANTS InOrder Functional Export
PROPERTIES NoInterference OfThatLog
CHECK_DEADLOCK FALSE
