SPECIFICATION MSpec
INVARIANTS NoCrossing NoCrossing2 Partition Filtered CountsAdd MissingOut
CHECK_DEADLOCK FALSE
