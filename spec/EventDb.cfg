SPECIFICATION Spec
INVARIANTS RightSoFar OnceSoFar EndsRight Border TieSane PathDist
CHECK_DEADLOCK FALSE
