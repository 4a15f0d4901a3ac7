SPECIFICATION MSpec
INVARIANTS Sound Export
PROPERTIES Apart Narrow
CHECK_DEADLOCK FALSE
