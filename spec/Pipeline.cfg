SPECIFICATION Spec
VIEW View
INVARIANTS Allowed Finishes NoCycle
CHECK_DEADLOCK FALSE
