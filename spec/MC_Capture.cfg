SPECIFICATION CSpec
INVARIANTS Right Short Export
VIEW CView
CHECK_DEADLOCK FALSE
