SPECIFICATION RSpec
INVARIANTS Numbered Stored Built Export
CHECK_DEADLOCK FALSE
