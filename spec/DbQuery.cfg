SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Monotone OwnLocation OnePerEvent ReturnSane
CHECK_DEADLOCK FALSE
