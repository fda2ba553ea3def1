SPECIFICATION Spec
INVARIANTS Allowed Final
CHECK_DEADLOCK FALSE
