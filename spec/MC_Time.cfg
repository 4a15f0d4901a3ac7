SPECIFICATION TSpec
INVARIANTS Right Joined Spans Export
CHECK_DEADLOCK FALSE
