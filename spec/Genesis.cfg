SPECIFICATION Spec
CONSTANTS W = 3
 MaxN = 4
 Dt = 6
 Target = 1
INVARIANT AllValid
CHECK_DEADLOCK FALSE
