SPECIFICATION MSpec
CONSTANT Step = 50
INVARIANTS Nearest Single AtDirections Bounded
CHECK_DEADLOCK FALSE
