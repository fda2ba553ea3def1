SPECIFICATION MSpec
CONSTANT MaxRuns = 3
INVARIANTS CanFinish Functional
CHECK_DEADLOCK FALSE
