SPECIFICATION MSpec
INVARIANTS Whole Export
PROPERTIES Apart Born
CHECK_DEADLOCK FALSE
