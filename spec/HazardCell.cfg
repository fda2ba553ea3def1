SPECIFICATION Spec
INVARIANTS Local Independent CanFinish
CHECK_DEADLOCK FALSE
