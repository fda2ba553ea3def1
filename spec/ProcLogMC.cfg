SPECIFICATION MSpec
INVARIANTS Faithful MemOk
CHECK_DEADLOCK FALSE
