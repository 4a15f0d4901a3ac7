SPECIFICATION MSpec
INVARIANTS Own NeverMixed Export
PROPERTIES Linear
POSTCONDITION Telling
CHECK_DEADLOCK FALSE
